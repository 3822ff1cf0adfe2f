// K27: the exported constraint graph and the drawn schedule.
#include "domain.hpp"
#include <regex>
#include <sstream>

namespace {
struct XArc { ll s, d; long double w, t; ll ev[6]; };   // node numbers, weight, time; task, phase, execution at both ends
struct Node { ll task, ph, k; bool operator<(const Node &o) const { return std::tie(task, ph, k) < std::tie(o.task, o.ph, o.k); } };
std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; std::istringstream i(s); for (std::string l; std::getline(i, l);) v.push_back(l); return v; }
bool readXml(const std::string &out, std::vector<XArc> &a) {
  static const std::regex rx("<Arc name='(\\d+)' node1='(\\d+)' node2='(\\d+)' weight='([^']*)' strict='[^']*' time='([^']*)' /><!-- \\[(R )?(-?\\d+)\\] (-?\\d+),(-?\\d+),(-?\\d+) to (-?\\d+),(-?\\d+),(-?\\d+) -->");
  ll n = 0;
  for (auto &l : lines(out)) {
    if (l.find("<Arc ") == std::string::npos) continue;
    std::smatch m; if (!std::regex_search(l, m, rx) || atoll(m[1].str().c_str()) != n++) return false;
    XArc x; x.s = atoll(m[2].str().c_str()); x.d = atoll(m[3].str().c_str()); x.w = strtold(m[4].str().c_str(), 0); x.t = strtold(m[5].str().c_str(), 0);
    for (int i = 0; i < 6; i++) x.ev[i] = atoll(m[8 + i].str().c_str());
    if ((m[6].length() > 0) != (x.ev[0] == x.ev[3])) return false;
    a.push_back(x);
  }
  return out.find("</Graphe>") != std::string::npos;
}
// the largest time/weight ratio of a circuit of the exported arcs
long double ratio(const std::vector<XArc> &a) {
  std::map<ll, ll> id; for (auto &x : a) { id.emplace(x.s, id.size()); id.emplace(x.d, id.size()); }
  auto over = [&](long double la) {   // a circuit with more time than la times its weight
    std::vector<long double> D(id.size(), 0);
    for (size_t i = 0; i <= id.size(); i++) { bool ch = false; for (auto &x : a) { long double v = D[id[x.s]] + x.t - la * x.w; auto &o = D[id[x.d]]; if (v > o + 1e-9L * (1 + std::fabs(o))) { o = v; ch = true; } } if (!ch) return false; }
    return true;
  };
  long double lo = 0, hi = 1; while (hi < 1e12L && over(hi)) hi *= 4;
  for (int i = 0; i < 60 && hi - lo > 1e-7L * hi; i++) { long double m = (lo + hi) / 2; (over(m) ? lo : hi) = m; }
  return hi;
}
// every node number is one event of the graph and the other way round
bool nodes(Ctx &c, const std::vector<XArc> &a, std::map<ll, Node> &of, const std::string &what) {
  std::map<Node, ll> back;
  for (auto &x : a) for (int e = 0; e < 2; e++) {
    ll n = e ? x.d : x.s; Node v{x.ev[3 * e], x.ev[3 * e + 1], x.ev[3 * e + 2]};
    auto p = of.emplace(n, v).first->second; if (p < v || v < p) { c.fail("xml.node-twice", what); return false; }
    if (back.emplace(v, n).first->second != n) { c.fail("xml.event-twice", what); return false; }
  }
  return true;
}
G pick(Ctx &c, std::vector<ll> &K, bool whole, ll cap, Period &p, bool strict = false) {
  for (int k = 0; k < 30; k++) {
    std::string prof; G g = thrGraph(c, &prof); if (prof == "scaled" || prof == "longdur") continue;
    if (whole) { g.dden = 1; for (auto &t : g.t) for (auto &x : t.dur) x = x % 9 + 1; }
    K.clear(); ll ev = 0; int m = (int)c.r.in(0, 2); Reps r = repetition(g);
    for (size_t i = 0; i < g.t.size(); i++) { K.push_back(m == 0 ? 1 : m == 1 ? c.r.in(1, 4) : r.q[i]); ev += K.back() * g.t[i].dur.size(); }
    if (ev > cap) continue;
    p = strict ? strictPeriod(g) : kPeriodicPeriod(g, K); if (p.k != Period::FINITE) continue;
    if (whole) {
      ll f = p.den; for (auto x : r.n) f = f / std::__gcd(f, x) * x; if (f > 400) continue;
      for (auto &t : g.t) for (auto &x : t.dur) x *= f;
      p = kPeriodicPeriod(g, K);
    }
    return g;
  }
  return G();
}
parameters_list_t params(const G &g, const std::vector<ll> &K, std::initializer_list<const char *> what, std::string &ks) {
  parameters_list_t q; for (auto w : what) q[w] = "1";
  for (size_t i = 0; i < g.t.size(); i++) { ks += std::to_string(K[i]) + ","; if (K[i] != 1) q[g.t[i].name] = std::to_string(K[i]); }
  return q;
}
}
MONITOR(K27, arcs, 3) {
  std::vector<ll> K; Period p; G g = pick(c, K, false, 60, p); if (g.t.empty()) return;
  models::Dataflow *d = toKiter(g); std::string ks; parameters_list_t q = params(g, K, {"XML", "DEP"}, ks);
  std::string what = "K=" + ks + " " + dump(g); c.step("PrintKPeriodicScheduling " + what);
  if (!computeRepetitionVector(d)) { c.fail("inconsistent", what); return; }
  std::string out = runAlgo(d, "PrintKPeriodicScheduling", q); c.state(what); c.sample(what);
  std::vector<XArc> a; if (!readXml(out, a)) { c.fail("xml.unreadable", out.substr(0, 1500) + what); return; }
  std::map<ll, Node> of; if (!nodes(c, a, of, what)) return;
  std::map<Node, int> want; for (size_t i = 0; i < g.t.size(); i++) { ll id = d->getVertexId(d->getVertexByName(g.t[i].name)); for (ll k = 1; k <= K[i]; k++) for (size_t f = 1; f <= g.t[i].dur.size(); f++) want[Node{id, (ll)f, k}] = 1; }
  for (auto &x : of) if (!want.erase(x.second)) { c.fail("xml.event-unknown", std::to_string(x.second.task) + "," + std::to_string(x.second.ph) + "," + std::to_string(x.second.k) + ": " + what); return; }
  if (!want.empty()) { c.fail("xml.event-missing", what); return; }
  c.inc("arcs", a.size()); c.inc("exports.arcs");
  for (auto &x : a) { auto &t = g.t; size_t i = 0; while ((ll)d->getVertexId(d->getVertexByName(t[i].name)) != x.ev[0]) i++;
    if (!close(x.t, (long double)t[i].dur[x.ev[1] - 1] / g.dden, 1e-5L)) { c.fail("xml.time", "an arc from " + t[i].name + " phase " + std::to_string(x.ev[1]) + " takes " + num(x.t) + ": " + what); return; } }
  long double v = ratio(a); if (!close(v, p.val(), 2e-3L)) { c.fail(v < p.val() ? "xml.too-few" : "xml.too-many", "the exported constraints give period " + num(v) + ", expected " + num(p.val()) + ": " + what); return; }
  // the drawing holds the same events and constraints
  std::multiset<std::string> x1, x2; size_t n = 0;
  auto key = [](ll s, ll t, long double w, long double du) { return std::to_string(s) + ">" + std::to_string(t) + " " + num(w) + " " + num(du); };
  for (auto &x : a) x1.insert(key(x.s, x.d, x.w, x.t));
  for (auto &l : lines(out)) {
    if (l.compare(0, 5, "\\node") == 0) {
      size_t b = l.find("] ("), e = l.find(" at ("), u = l.rfind("_"), v = l.rfind(","), z = l.rfind("$}"); if (b == std::string::npos || e == std::string::npos || u == std::string::npos || v == std::string::npos || z == std::string::npos) { c.fail("drawing.node", l); return; }
      ll id = atoll(l.c_str() + b + 3), t = atoll(l.c_str() + e + 5), ph = atoll(l.c_str() + u + 1), k = atoll(l.c_str() + v + 1); n++;
      if (!of.count(id) || of[id].task != t || of[id].ph != ph || of[id].k != k) { c.fail("drawing.node-differs", l + ": " + what); return; }
    } else if (l.size() && l[0] == '(' && l.find(") edge node") != std::string::npos) {
      ll s = atoll(l.c_str() + 1); size_t b = l.find("{$("), m = l.find(",", b), e = l.find(")$} ("); if (b == std::string::npos || m == std::string::npos || e == std::string::npos) { c.fail("drawing.arc", l); return; }
      x2.insert(key(s, atoll(l.c_str() + e + 5), strtold(l.c_str() + b + 3, 0), strtold(l.c_str() + m + 1, 0)));
    }
  }
  if (n != of.size()) { c.fail("drawing.nodes", std::to_string(n) + " drawn of " + std::to_string(of.size()) + ": " + what); return; }
  if (x1 != x2) c.fail("drawing.arcs", what);
}
MONITOR(K27, strict, 1) {
  std::vector<ll> K; Period p; G g = pick(c, K, false, 60, p, true); if (g.t.empty()) return;
  models::Dataflow *d = toKiter(g); parameters_list_t q; q["PRINTEG"] = "1"; std::string what = dump(g); c.step("SPeriodicThroughput " + what);
  std::string out = runAlgo(d, "SPeriodicThroughput", q); c.state("S" + what); c.sample("strict " + what);
  std::vector<XArc> a; if (!readXml(out, a)) { c.fail("strict.unreadable", out.substr(0, 1500) + what); return; }
  std::map<ll, Node> of; if (!nodes(c, a, of, what)) return;
  if (of.size() != g.t.size()) { c.fail("strict.events", what); return; }
  c.inc("exports.strict"); long double v = ratio(a);
  if (!close(v, p.val(), 2e-3L)) c.fail(v < p.val() ? "strict.too-few" : "strict.too-many", "the exported constraints give period " + num(v) + ", expected " + num(p.val()) + ": " + what);
}
MONITOR(K27, drawn, 3) {
  std::vector<ll> K; Period p; G g = pick(c, K, true, 60, p); if (g.t.empty()) return;
  if (c.r.p(30)) for (auto &t : g.t) t.name = "n_" + t.name;
  models::Dataflow *d = toKiter(g); std::string ks; parameters_list_t q = params(g, K, {"SCHED"}, ks);
  std::string what = "K=" + ks + " " + dump(g); c.step("PrintKPeriodicScheduling " + what);
  if (!computeRepetitionVector(d)) { c.fail("inconsistent", what); return; }
  Reps r = repetition(g); std::string out = runAlgo(d, "PrintKPeriodicScheduling", q); c.state("D" + what); c.sample("drawn " + what);
  std::map<ll, size_t> row; std::vector<StartSeq> s(g.t.size()); std::vector<size_t> reps(g.t.size(), 0); long double horizon = -1;
  for (auto &l : lines(out)) {
    ll a, k, n, cnt; double du, st, pe; char nm[256]; ll v0; double sc, mt; 
    if (l.find('%') == 0) continue;
    if (sscanf(l.c_str(), "\\begin{scheduling}{%lld}{%lld}{%lf}{%lf}", &v0, &a, &sc, &mt) == 4) { horizon = mt; if (v0 != (ll)g.t.size()) { c.fail("schedule.header", l + what); return; } }
    else if (sscanf(l.c_str(), "\\taskname{%lld}{%255[^}]}%% ki=%lld Ni=%lld", &a, nm, &k, &n) == 4) {
      size_t i = 0; for (; i < g.t.size(); i++) { std::string x = g.t[i].name; std::replace(x.begin(), x.end(), '_', '-'); if (x == nm) break; }
      if (i == g.t.size() || row.count(a)) { c.fail("schedule.row", l + ": " + what); return; }
      row[a] = i; if (k != K[i] || n != r.n[i]) { c.fail("schedule.row-infos", l + ": " + what); return; }
    } else if (sscanf(l.c_str(), "\\addexecution[initblock]{%lld}{}{%lf}{%lf}", &a, &du, &st) == 3) {
      if (!row.count(a)) { c.fail("schedule.row-unknown", l + ": " + what); return; }
      size_t i = row[a], ph = s[i].per.size() % g.t[i].dur.size(); s[i].per.push_back(st);
      if (!close(du, g.t[i].dur[ph], 1e-5L)) { c.fail("schedule.duration", l + ": " + what); return; }
    } else if (sscanf(l.c_str(), "\\addperiodictask[repeatblock]{%lld}{}{%lf}{%lf}{%lf}{%lld}", &a, &du, &st, &pe, &cnt) == 5) {
      if (!row.count(a) || s[row[a]].per.size() != ++reps[row[a]]) { c.fail("schedule.repeat-order", l + ": " + what); return; }
      size_t i = row[a]; s[i].period = pe;
      if (!close(st - s[i].per.back(), pe, 1e-4L) || !close(du, g.t[i].dur[(reps[i] - 1) % g.t[i].dur.size()], 1e-5L)) { c.fail("schedule.repeat", l + ": " + what); return; }
      if (st + cnt * pe > horizon * (1 + 1e-4L) || st + (cnt + 3) * pe < horizon * (1 - 1e-4L)) { c.fail("schedule.horizon", l + ": " + what); return; }
    }
  }
  if (horizon < 2 * p.val() * (1 - 1e-4L)) { c.fail("schedule.short", num(horizon) + ": " + what); return; }
  if (row.size() != g.t.size()) { c.fail("schedule.rows", out.substr(0, 1500) + what); return; }
  for (size_t i = 0; i < g.t.size(); i++) {
    if ((ll)s[i].per.size() != K[i] * (ll)g.t[i].dur.size() || reps[i] != s[i].per.size()) { c.fail("schedule.executions", g.t[i].name + ": " + what); return; }
    bool whole = s[i].period < 1e6L && s[i].period == roundl(s[i].period); for (auto x : s[i].per) whole = whole && x < 1e6L && x == roundl(x);
    if (!whole) { c.inc("schedule.rounded"); return; }
    if (s[i].period * r.n[i] != p.val() * s[i].per.size()) { c.fail("schedule.period", g.t[i].name + " every " + num(s[i].period) + ": " + what); return; }
  }
  ReplayRes R = replay(g, r, s, 5, true); c.inc("drawn.executions", R.events); c.inc("drawn.schedules");
  if (!R.ok) c.fail("schedule.invalid", R.why + ": " + out.substr(0, 1500) + what);
}
