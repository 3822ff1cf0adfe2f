// K25: summaries, drawings and charts describe the graph, the mapping and the schedule they are given.
#include "domain.hpp"
#include <printers/stdout.h>
#include <models/NoC.h>
#include <regex>

namespace {
std::vector<std::string> lines(const std::string &s) { std::vector<std::string> o; std::istringstream is(s); std::string l; while (std::getline(is, l)) o.push_back(l); return o; }
std::vector<std::string> words(std::string s) { std::vector<std::string> o; std::istringstream is(s); std::string w; while (is >> w) o.push_back(w); return o; }
// every number of a printed list
std::vector<ll> ints(const std::string &s) { std::vector<ll> v; const char *p = s.c_str(); while (*p) { if (isdigit((unsigned char)*p)) { char *e; v.push_back(strtoll(p, &e, 10)); p = e; } else p++; } return v; }
std::string attr(const std::string &s, const std::string &k) {  // value of k="..." or k = "..."
  size_t p = 0;
  while ((p = s.find(k, p)) != std::string::npos) {
    if (p && (isalnum((unsigned char)s[p - 1]) || s[p - 1] == '_')) { p += k.size(); continue; }
    size_t q = p + k.size(); while (q < s.size() && s[q] == ' ') q++;
    if (q < s.size() && s[q] == '=') { q++; while (q < s.size() && s[q] == ' ') q++; if (s[q] == '"') { size_t e = s.find('"', q + 1); return s.substr(q + 1, e - q - 1); } size_t e = s.find_first_of(",]", q); return s.substr(q, e - q); }
    p += k.size();
  }
  return "?";
}
G any(Ctx &c) {
  std::string prof; G g;
  for (int k = 0; k < 10; k++) { g = thrGraph(c, &prof); if (prof != "scaled") break; }
  if (c.r.p(15) && g.e.size()) { auto &e = g.e[c.r.in(0, g.e.size() - 1)]; e.in[0] += 1; }   // most of these are inconsistent
  for (auto &t : g.t) if (c.r.p(15)) t.re = 0;
  return g;
}
}
MONITOR(K25, infos, 2) {
  G g = any(c); Reps r = repetition(g);
  models::Dataflow *d = toKiter(g); d->setAppName("app"); d->setGraphType("csdf");
  std::map<ll, ll> map; if (c.r.p(30)) { NoC noc(3, 3); d->setNoC(noc); for (auto v : d->vertices()) { ll k = c.r.in(9, 17); d->setMapping(v, k); map[d->getVertexId(v)] = k; } }
  std::string gn = d->getGraphName();
  c.step("PrintInfos " + dump(g)); std::string out = runAlgo(d, "PrintInfos"), what = out.substr(0, 1500) + " for " + dump(g);
  c.state(dump(g)); c.sample(what);
  auto L = lines(out); std::map<std::string, std::string> kv; int sec = 0; size_t nt = 0, ne = 0; bool said = out.find("not consistent") != std::string::npos;
  if (said == r.ok) return c.fail("infos.consistency", what);
  c.inc(r.ok ? "infos.consistent" : "infos.inconsistent");
  std::map<std::string, ll> idOf; for (auto v : d->vertices()) idOf[d->getVertexName(v)] = d->getVertexId(v);
  for (auto &l : L) {
    auto w = words(l); if (w.empty()) continue;
    if (w[0] == "TASKS" || w[0] == "NO") { sec = 1; continue; } if (w[0] == "CHANNELS") { sec = 2; continue; }
    if (sec == 0) { size_t p = l.rfind('='); if (p == std::string::npos) continue; std::string k = l.substr(0, p); if (k.find("Sum(Nt") == 0) k = "Sum(Nt)"; while (k.size() && k.back() == ' ') k.pop_back(); std::string v = l.substr(p + 1); while (v.size() && v[0] == ' ') v.erase(0, 1); kv[k] = v; continue; }
    std::string f = l; for (auto &ch : f) if (ch == '(' || ch == ')') ch = ' '; w = words(f);
    if (sec == 1) {
      for (auto &t : g.t) if (t.name == w[0]) {
        nt++; c.inc("rows"); size_t i = &t - &g.t[0]; ll in = 0, ou = 0; for (auto &e : g.e) { in += e.d == (int)i; ou += e.s == (int)i; }
        long double dur = 0; for (auto x : t.dur) dur += (long double)x / g.dden;
        ll id = idOf[t.name], mp = map.count(id) ? map[id] : -1;
        std::vector<std::string> want = {t.name, std::to_string(id), std::to_string(in), std::to_string(ou), "", r.ok ? std::to_string(r.n[i]) : "N/A", std::to_string(t.dur.size()), std::to_string(mp)};
        if (w.size() != want.size()) return c.fail("infos.task-row", l + " | " + what);
        for (size_t k = 0; k < w.size(); k++) { bool ok = k == 4 ? close(strtold(w[k].c_str(), 0), dur, 1e-5L) : k == 7 && mp == -1 ? atoll(w[k].c_str()) < 0 : w[k] == want[k]; if (!ok) return c.fail("infos.task-row", "column " + std::to_string(k) + " of " + l + " | " + what); }
      }
    } else for (auto &e : g.e) if (e.name == w[0]) {
      ne++; c.inc("rows");
      std::vector<ll> want = {idOf[g.t[e.s].name], idOf[g.t[e.d].name], e.sumIn(), e.sumOut(), e.m0};
      if (w.size() < 7) return c.fail("infos.channel-row", l + " | " + what);
      for (size_t k = 0; k < 5; k++) if (w[k + 2] != std::to_string(want[k])) return c.fail("infos.channel-row", "column " + std::to_string(k + 2) + " of " + l + " | " + what);
    }
  }
  if (nt != g.t.size() || ne != g.e.size()) return c.fail("infos.rows", std::to_string(nt) + " tasks, " + std::to_string(ne) + " channels: " + what);
  auto is = [&](const char *k, const std::string &v) { if (!kv.count(k) || kv[k] != v) c.fail(std::string("infos.") + k, "'" + (kv.count(k) ? kv[k] : "absent") + "' expected '" + v + "': " + what); };
  is("App name", "app"); is("Graph name", gn); is("Graph type", "csdf"); is("Task count", std::to_string(g.t.size())); is("Channel count", std::to_string(g.e.size()));
  if (r.ok) { ll q = 0, n = 0, ph = 0; for (size_t i = 0; i < g.t.size(); i++) { q += r.q[i]; n += r.n[i]; ph += g.t[i].dur.size(); } is("Sum(qt)", std::to_string(q)); is("Sum(phit)", std::to_string(ph)); is("Sum(Nt)", std::to_string(n)); }
}
MONITOR(K25, dot, 2) {
  G g = any(c); Reps r = repetition(g); bool simple = c.r.p(50);
  models::Dataflow *d = toKiter(g); std::string out;
  if (simple && c.r.p(50)) { c.step("PrintGraph " + dump(g)); out = runAlgo(d, "PrintGraph"); } else { c.step("GenerateGraphDOT " + dump(g)); out = printers::GenerateGraphDOT(d, simple); }
  std::string what = out.substr(0, 2500) + " for " + dump(g); c.state(dump(g)); c.sample(what);
  // statements end with a bracket followed by a semicolon
  std::map<std::string, std::string> node; std::vector<std::pair<std::pair<std::string, std::string>, std::string>> arc;
  { std::string cur; bool in = false; for (auto &l : lines(out)) { if (l.find("  t_") == 0) { cur = ""; in = true; } if (!in) continue; cur += l + "\n"; size_t p = l.rfind(';'); if (p != std::string::npos && p > 0 && l.find(']') != std::string::npos) { in = false; auto w = words(cur); if (w.size() > 2 && w[1] == "->") arc.push_back({{w[0], w[2]}, cur}); else if (!node.insert({w[0], cur}).second) return c.fail("dot.task-twice", what); } } }
  if (node.size() != g.t.size() || arc.size() != g.e.size()) return c.fail("dot.count", std::to_string(node.size()) + " tasks, " + std::to_string(arc.size()) + " channels: " + what);
  std::map<std::string, std::string> nid;
  for (size_t i = 0; i < g.t.size(); i++) {
    std::string id = "t_" + std::to_string(d->getVertexId(d->getVertexByName(g.t[i].name))); nid[g.t[i].name] = id;
    if (!node.count(id)) return c.fail("dot.task-missing", id + ": " + what);
    std::string lab = attr(node[id], "label"); c.inc("statements");
    auto L = lines(lab); if (L[0] != g.t[i].name) return c.fail("dot.task-label", lab + ": " + what);
    if (simple) continue;
    std::map<std::string, std::string> kv; for (auto &x : L) { size_t p = x.find(':'); if (p != std::string::npos) kv[x.substr(0, p)] = x.substr(p + 1); }
    std::vector<ll> du; for (auto x : g.t[i].dur) du.push_back(x);
    if ("t_" + kv["id"] != id || kv["Phases"] != std::to_string(g.t[i].dur.size()) || kv["Ni"] != (r.ok ? std::to_string(r.n[i]) : std::string("N/A")) || kv["reentrancy"] != std::to_string(g.t[i].re) || (g.dden == 1 && *std::max_element(du.begin(), du.end()) < 100000 && ints(kv["duration"]) != du)) return c.fail("dot.task-attributes", lab + ": " + what);
  }
  std::multiset<std::string> a, b;
  for (auto &x : arc) { c.inc("statements"); std::string lab = attr(x.second, "label"), m = lab; if (!simple) { size_t p = lab.find("preload:"); m = p == std::string::npos ? "?" : lab.substr(p + 8); }
    std::string s = x.first.first + ">" + x.first.second + " " + m + " head"; for (auto k : ints(attr(x.second, "headlabel"))) s += " " + std::to_string(k); s += " tail"; for (auto k : ints(attr(x.second, "taillabel"))) s += " " + std::to_string(k); a.insert(s); }
  for (auto &e : g.e) { std::string s = nid[g.t[e.s].name] + ">" + nid[g.t[e.d].name] + " " + std::to_string(e.m0) + " head"; for (auto k : e.out) s += " " + std::to_string(k); s += " tail"; for (auto k : e.in) s += " " + std::to_string(k); b.insert(s); }
  if (a != b) { std::string x, y; for (auto &s : a) x += s + "; "; for (auto &s : b) y += s + "; "; c.fail("dot.channels", "drawn " + x + "| graph " + y); }
}
MONITOR(K25, mapping, 1) {
  G g; { GenOpt o; o.tmin = 1; o.tmax = 9; o.maxphase = 1; o.livepct = 100; g = genGraph(c.r, o); }
  models::Dataflow *d = toKiter(g); int X = (int)c.r.in(1, 4), Y = (int)c.r.in(1, 4), n = X * Y; NoC noc(X, Y); d->setNoC(noc);
  c.step("PrintMapping " + std::to_string(X) + "x" + std::to_string(Y) + " " + dump(g));
  runAlgo(d, c.r.p(50) ? "moduloMapping" : "randomMapping"); bool routed = c.r.p(80); if (routed) runAlgo(d, c.r.p(50) ? "xyRouting" : "randomRouting");
  bool col = c.r.p(60), con = c.r.p(50); parameters_list_t prm; if (col) prm["color_routes"] = "1"; else if (c.r.p(50)) prm["color_routes"] = "0"; if (con) prm["connect_tasks"] = "1";
  std::string out = runAlgo(d, "PrintMapping", prm), what = out.substr(0, 3000) + " for " + dump(g); c.state(what); c.sample(what);
  std::set<long> nodes; std::map<std::pair<long, long>, int> links; std::map<std::string, std::pair<double, double>> pos; std::map<std::string, std::string> lab; std::multiset<std::pair<std::string, std::string>> arcs; std::map<long, std::pair<double, double>> npos;
  for (auto &l : lines(out)) {
    size_t b = l.find('['); if (b == std::string::npos || l.find("];") == std::string::npos && l.back() != ']') continue;
    std::string h = l.substr(0, b), a = l.substr(b), s, t; size_t ar = h.find("->");
    auto trim = [](std::string x) { while (x.size() && x[0] == ' ') x.erase(0, 1); while (x.size() && x.back() == ' ') x.pop_back(); return x; };
    auto at = [&](std::pair<double, double> &p) { std::string q = attr(a, "pos"); return sscanf(q.c_str(), "%lf,%lf", &p.first, &p.second) == 2; };
    if (ar != std::string::npos) {
      s = trim(h.substr(0, ar)); t = trim(h.substr(ar + 2));
      if (s.find("task_") == 0) arcs.insert({s, t});
      else { std::string k = attr(a, "color"); int u = 0; if (k != "?") { u = 1; for (size_t i = 0; i + 1 < k.size(); i++) if (k[i] == ':' && k[i + 1] == ':') { u++; i++; } } if (!links.insert({{atol(s.c_str()), atol(t.c_str())}, u}).second) return c.fail("mapping.link-twice", l + ": " + what); }
    } else {
      s = trim(h); std::pair<double, double> p;
      if (s.find("task_") == 0) { if (!at(p)) return c.fail("mapping.no-position", l + ": " + what); if (!pos.insert({s, p}).second) return c.fail("mapping.task-twice", l + ": " + what); lab[s] = attr(a, "label"); }
      else if (isdigit((unsigned char)s[0])) { if (!at(p) || !nodes.insert(atol(s.c_str())).second) return c.fail("mapping.node", l + ": " + what); npos[atol(s.c_str())] = p; }
    }
  }
  if ((int)nodes.size() != 2 * n || pos.size() != g.t.size()) return c.fail("mapping.count", std::to_string(nodes.size()) + " nodes, " + std::to_string(pos.size()) + " tasks: " + what);
  if (links.size() != noc.getEdges().size()) return c.fail("mapping.links", std::to_string(links.size()) + ": " + what);
  std::map<std::pair<long, long>, int> use; for (auto &e : noc.getEdges()) use[{e.src, e.dst}] = 0;
  if (col) { ForEachEdge(d, e) for (auto k : d->getRoute(e)) use[{noc.getEdge(k).src, noc.getEdge(k).dst}]++; }
  if (use != links) return c.fail("mapping.link-usage", what);
  std::multiset<std::pair<std::string, std::string>> wa; if (con) for (auto &e : g.e) wa.insert({"task_" + std::to_string(d->getVertexId(d->getVertexByName(g.t[e.s].name))), "task_" + std::to_string(d->getVertexId(d->getVertexByName(g.t[e.d].name)))});
  if (!prm.count("connect_tasks")) wa = arcs;   // the default is unspecified
  if (arcs != wa) return c.fail("mapping.task-links", what);
  for (auto v : d->vertices()) {
    std::string k = "task_" + std::to_string(d->getVertexId(v)); c.inc("tasks.placed");
    if (!pos.count(k)) return c.fail("mapping.task-missing", k + ": " + what);
    long m = d->getMapping(v); auto p = npos[m]; double dx = pos[k].first - p.first, dy = pos[k].second - p.second;
    if (std::fabs(dx) > 0.2 || std::fabs(dy) > 0.2) return c.fail("mapping.task-position", k + " mapped on " + std::to_string(m) + ": " + what);
    if (lab[k] != d->getVertexName(v)) return c.fail("mapping.task-label", k + ": " + what);
  }
}
static bool schedOf(Ctx &c, G &g, models::Dataflow *&d, models::Scheduling *&s, std::vector<std::vector<long double>> &st, std::vector<long double> &per, bool whole) {
  std::string prof;
  for (int k = 0; k < 30; k++) {
    g = thrGraph(c, &prof); if (prof == "scaled" || prof == "longdur") continue; if (whole) g.dden = 1;
    if (whole) for (auto &t : g.t) for (auto &x : t.dur) x = x % 9 + 1;
    Reps r = repetition(g); ll n = 0; for (auto x : r.n) n += x; if (n > 60) continue;
    std::vector<ll> K(g.t.size(), 1); bool one = c.r.p(50); Period p = one ? kPeriodicPeriod(g, K) : exactPeriod(g); if (p.k != Period::FINITE) continue;
    if (whole) { // make every date an integer: scale the durations by a multiple of the period's denominator and of the repetition vector
      ll f = p.den; for (auto x : r.n) f = f / std::__gcd(f, x) * x; if (f > 400) continue; for (auto &t : g.t) for (auto &x : t.dur) x *= f;
    }
    d = toKiter(g); c.step("schedule " + dump(g)); if (!computeRepetitionVector(d)) { c.fail("schedule.inconsistent", dump(g)); return false; }
    s = new models::Scheduling(one ? algorithms::scheduling::CSDF_1PeriodicScheduling(d) : algorithms::scheduling::CSDF_KPeriodicScheduling(d));
    auto ts = s->getTaskSchedule(); st.clear(); per.clear();
    for (auto &t : g.t) { auto &x = ts[d->getVertexId(d->getVertexByName(t.name))]; st.push_back(std::vector<long double>(x.periodic_starts.second.begin(), x.periodic_starts.second.end())); per.push_back(x.periodic_starts.first); }
    return true;
  }
  return false;
}
MONITOR(K25, gantt, 1) {
  G g; models::Dataflow *d; models::Scheduling *s; std::vector<std::vector<long double>> st; std::vector<long double> per;
  if (!schedOf(c, g, d, s, st, per, false)) return;
  long double hor = 0; for (auto x : per) hor = std::max(hor, x); hor = hor * c.r.in(1, 4) + c.r.in(0, 3); long double xs = c.r.p(50) ? 1 : c.r.in(2, 5);
  std::string out = printers::PeriodicScheduling2DOT(d, *s, hor, true, xs, 1), what = out.substr(0, 1500) + " for " + dump(g); c.state(dump(g)); c.sample(what);
  std::map<long double, std::vector<std::pair<long double, long double>>> rows; std::map<std::string, long double> yOf;
  for (auto &l : lines(out)) { if (l.empty() || l[0] != '"') continue; std::string q = attr(l, "pos"), n = l.substr(1, l.find('"', 1) - 1); double x, y; if (sscanf(q.c_str(), "%lf,%lf", &x, &y) != 2) return c.fail("gantt.position", l); if (attr(l, "shape") == "plaintext") { yOf[n] = y; continue; } long double w = strtold(attr(l, "width").c_str(), 0) * 72; rows[y].push_back({(x - w / 2) / xs, w / xs}); }
  for (size_t i = 0; i < g.t.size(); i++) {
    if (!yOf.count(g.t[i].name)) return c.fail("gantt.task-missing", g.t[i].name + ": " + what);
    auto v = rows[yOf[g.t[i].name]]; std::sort(v.begin(), v.end()); size_t n = st[i].size(), k = 0; auto order = st[i];
    for (auto &b : v) { long double a = st[i][k % n] + per[i] * (k / n), du = (long double)g.t[i].dur[k % g.t[i].dur.size()] / g.dden; k++; c.inc("blocks");
      if (std::fabs(b.first - a) > 1e-4L * std::max<long double>(1, a) + 1e-3L || !close(b.second, du, 1e-4L)) return c.fail("gantt.block", "execution " + std::to_string(k) + " of " + g.t[i].name + " drawn at " + num(b.first) + " for " + num(b.second) + ", scheduled at " + num(a) + " for " + num(du) + ": " + what); }
    long double nx = st[i][k % n] + per[i] * (k / n); if (nx < hor * (1 - 1e-6L)) return c.fail("gantt.missing", g.t[i].name + " starts at " + num(nx) + " before " + num(hor) + ", not drawn: " + what);
  }
}
MONITOR(K25, chart, 2) {
  G g; models::Dataflow *d; models::Scheduling *s; std::vector<std::vector<long double>> st; std::vector<long double> per;
  if (!schedOf(c, g, d, s, st, per, true)) return;
  // dates that are not whole numbers have no column of their own
  for (size_t i = 0; i < st.size(); i++) { if (std::fabs(per[i] - roundl(per[i])) > 0) { c.inc("chart.fraction"); return; } for (auto x : st[i]) if (std::fabs(x - roundl(x)) > 0) { c.inc("chart.fraction"); return; } }
  int len = (int)c.r.in(10, 2000); std::string out = s->asASCII(len), what = out.substr(0, 1500) + " for " + dump(g); c.state(dump(g)); c.sample(what);
  auto L = lines(out); if (L.size() != g.t.size()) return c.fail("chart.rows", what);
  for (auto &l : L) {
    size_t b = l.find('|'); if (b == std::string::npos) return c.fail("chart.row", l); ll id = atoll(l.c_str()); std::string got = l.substr(b + 1), want(len, ' ');
    for (size_t i = 0; i < g.t.size(); i++) if ((ll)d->getVertexId(d->getVertexByName(g.t[i].name)) == id) {
      for (size_t k = 0;; k++) { ll a = (ll)(st[i][k % st[i].size()] + per[i] * (k / st[i].size())), du = g.t[i].dur[k % g.t[i].dur.size()]; if (a >= len) break; want[a] = '@'; for (ll x = a + 1; x < a + du && x < len; x++) want[x] = '#'; c.inc("chart.executions"); }
      if (got != want) return c.fail("chart.line", g.t[i].name + " drawn '" + got.substr(0, 400) + "' expected '" + want.substr(0, 400) + "': " + dump(g));
    }
  }
}
MONITOR(K25, text, 1) {
  G g; models::Dataflow *d; models::Scheduling *s; std::vector<std::vector<long double>> st; std::vector<long double> per;
  if (!schedOf(c, g, d, s, st, per, false)) return;
  bool tikz = c.r.p(50); std::string out = tikz ? printers::Scheduling2Tikz(*s) : s->asText(), what = out.substr(0, 1500) + " for " + dump(g); c.state(dump(g)); c.sample(what);
  auto near = [](long double a, long double b) { return std::fabs(a - b) <= 1e-4L * std::max<long double>(1, std::fabs(b)); };
  if (tikz) {
    std::map<std::string, std::vector<std::array<long double, 3>>> got;   // start, duration, period
    for (auto &l : lines(out)) { if (l.find("\\addperiodictask") != 0) continue; std::vector<std::string> f; size_t p = l.find(']') + 1; int dep = 0; std::string cur; for (; p < l.size(); p++) { if (l[p] == '{') { if (dep++) cur += '{'; } else if (l[p] == '}') { if (--dep) cur += '}'; else { f.push_back(cur); cur = ""; } } else cur += l[p]; }
      if (f.size() < 5) return c.fail("tikz.row", l); std::string n = f[1].substr(1, f[1].rfind("_{") - 1); got[n].push_back({strtold(f[3].c_str(), 0), strtold(f[2].c_str(), 0), strtold(f[4].c_str(), 0)}); }
    for (size_t i = 0; i < g.t.size(); i++) { auto &v = got[g.t[i].name]; if (v.size() != st[i].size()) return c.fail("tikz.count", what); for (size_t k = 0; k < v.size(); k++) { c.inc("text.values"); if (!near(v[k][0], st[i][k]) || !near(v[k][1], (long double)g.t[i].dur[k % g.t[i].dur.size()] / g.dden) || !near(v[k][2], per[i])) return c.fail("tikz.execution", g.t[i].name + " " + std::to_string(k) + ": " + what); } }
    return;
  }
  std::vector<StartSeq> q; std::string why;
  if (!parseText(out, g, q, why)) return c.fail("text.unreadable", why + ": " + what);
  for (size_t i = 0; i < g.t.size(); i++) { c.inc("text.values"); bool ok = q[i].per.size() == st[i].size() && near(q[i].period, per[i]); for (size_t k = 0; ok && k < st[i].size(); k++) ok = near(q[i].per[k], st[i][k]); if (!ok) return c.fail("text.values", g.t[i].name + ": " + what); }
}
