// Numeric and list building blocks (K18) and graph generators (K19).
#include "domain.hpp"
#include <commons/GroupList.h>
#include <generators/RandomGenerator.h>
#include <generators/LTEGenerator.h>
#include <printers/SDF3Wrapper.h>
#include <functional>

namespace {
typedef Fraction<long> F;
lll gcd128(lll a, lll b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { lll t = a % b; a = b; b = t; } return a; }
struct Q { lll n, d; };
Q norm(lll n, lll d) { if (d < 0) { n = -n; d = -d; } lll g = gcd128(n, d); return {n / g, d / g}; }
std::string qs(const Q &q) { return std::to_string((ll)q.n) + "/" + std::to_string((ll)q.d); }
std::string fs(const F &f) { return std::to_string(f.numerator()) + "/" + std::to_string(f.denominator()); }
bool same(const F &f, const Q &q) { return (lll)f.numerator() == q.n && (lll)f.denominator() == q.d; }
ll value(Rng &r, ll bound) { // mixes small values, powers of two, values around the bound
  switch (r.in(0, 4)) {
    case 0: return r.in(0, 3);
    case 1: return r.in(1, 30);
    case 2: { ll v = 1ll << r.in(0, 30); return std::min(bound, v + r.in(-1, 1)); }
    case 3: return r.in(1, bound);
    default: return bound - r.in(0, 5);
  }
}
}

MONITOR(K18, fraction, 2) {
  Rng &r = c.r; std::ostringstream log;
  for (int it = 0; it < 40; it++) {
    ll B = r.p(50) ? 1000000000ll : r.pick(std::vector<ll>{12, 100, 5000, 1000000});
    ll an = value(r, B) * (r.p(30) ? -1 : 1), ad = std::max<ll>(1, value(r, B)), bn = value(r, B) * (r.p(30) ? -1 : 1), bd = std::max<ll>(1, value(r, B));
    if (r.p(25)) { ll k = r.in(1, 20); bn = an * k / 1; bd = ad * k; if (bd > 2000000000ll || bn > 2000000000ll || bn < -2000000000ll) { bn = an; bd = ad; } if (r.p(40)) bn += r.in(-1, 1); }
    if (r.p(20)) bd = ad; if (r.p(20)) bn = an;
    F a(an, ad), b(bn, bd); Q qa = norm(an, ad), qb = norm(bn, bd);
    std::string head = std::to_string(an) + "/" + std::to_string(ad) + " and " + std::to_string(bn) + "/" + std::to_string(bd) + ": ";
    c.step(head);
    if (!same(a, qa)) return c.fail("fraction-reduce", head + "first reads " + fs(a));
    lll cmp = qa.n * qb.d - qb.n * qa.d;
    if ((a < b) != (cmp < 0)) return c.fail("fraction-less", head + "wrong order by <");
    if ((a > b) != (cmp > 0)) return c.fail("fraction-greater", head + "wrong order by >");
    if ((a <= b) != (cmp <= 0)) return c.fail("fraction-lesseq", head + "wrong order by <=");
    if ((a == b) != (cmp == 0) || (a != b) != (cmp != 0)) return c.fail("fraction-equal", head + "wrong equality");
    long v = r.p(50) ? an / ad + r.in(-2, 2) : bn; lll cv = qa.n - (lll)v * qa.d;
    std::string vh = std::to_string(an) + "/" + std::to_string(ad) + " and " + std::to_string(v) + ": ";
    if (a.operator<(v) != (cv < 0)) return c.fail("fraction-int-less", vh + "wrong <");
    if (a.operator>(v) != (cv > 0)) return c.fail("fraction-int-greater", vh + "wrong >");
    if (a.operator==(v) != (cv == 0) || (a != v) != (cv != 0)) return c.fail("fraction-int-equal", vh + "wrong equality");
    if ((a <= v) != (cv <= 0)) return c.fail("fraction-int-lesseq", vh + "wrong <=");
    F m = a * b; if (!same(m, norm(qa.n * qb.n, qa.d * qb.d))) return c.fail("fraction-times", head + "product " + fs(m));
    if (bn) { F q = a / b; if (!same(q, norm(qa.n * qb.d, qa.d * qb.n))) return c.fail("fraction-divide", head + "quotient " + fs(q)); }
    if (v) { F m2 = a * v; if (!same(m2, norm(qa.n * v, qa.d))) return c.fail("fraction-int-times", vh + "product " + fs(m2));
      F q2 = a; q2 /= v; if (!same(q2, norm(qa.n, qa.d * v))) return c.fail("fraction-int-divide", vh + "quotient " + fs(q2)); }
    if (r.p(20)) { F s = a; if (an) { s /= s; if (!same(s, {1, 1})) return c.fail("fraction-self-divide", head + "self quotient " + fs(s)); } }
    if (commons::toString(a) != qs(qa)) return c.fail("fraction-text", head + "printed " + commons::toString(a));
    c.inc("fractions"); c.inc(cmp < 0 ? "less" : cmp > 0 ? "greater" : "equal"); log << an << "/" << ad << " ";
  }
  c.state(log.str());
}

MONITOR(K18, integer, 1) {
  Rng &r = c.r; std::ostringstream log;
  for (int it = 0; it < 40; it++) {
    ll B = r.p(50) ? 1000000000ll : 60; long v = value(r, B) * (r.p(30) ? -1 : 1), k = std::max<ll>(1, value(r, r.p(60) ? 20 : B));
    if (r.p(30)) v = k * r.in(0, 20) * (r.p(30) ? -1 : 1);
    auto fl = [](ll a, ll b) { ll q = a / b; if (a % b && a < 0) q--; return q * b; };
    long lo = fl(v, k), hi = -fl(-v, k);
    std::string head = std::to_string(v) + " by " + std::to_string(k) + ": ";
    c.step(head);
    if (commons::floor(v, k) != lo || commons::flooru(v, k) != lo) return c.fail("round-down", head + std::to_string(commons::floor(v, k)) + " " + std::to_string(commons::flooru(v, k)));
    if (commons::ceil(v, k) != hi || commons::ceilu(v, k) != hi) return c.fail("round-up", head + std::to_string(commons::ceil(v, k)) + " " + std::to_string(commons::ceilu(v, k)));
    if (commons::ceild(v, k) != (hi == v ? v + k : hi)) return c.fail("next-multiple", head + std::to_string(commons::ceild(v, k)));
    if (commons::floord(v, k) != (lo == v ? v - k : lo)) return c.fail("previous-multiple", head + std::to_string(commons::floord(v, k)));
    if (commons::modulo(v, k) != v - lo) return c.fail("modulo", head + std::to_string(commons::modulo(v, k)));
    if (commons::isInteger((TIME_UNIT)v / (TIME_UNIT)k) != (v % k == 0)) return c.fail("is-integer", head);
    ll a = std::max<ll>(1, value(r, B)), b = r.p(10) ? 0 : value(r, B), g = std::gcd(a, b), t = g * r.in(-50, 50);
    auto x = commons::extended_euclide<long>(a, b, t);
    if ((lll)a * x.first + (lll)b * x.second != (lll)t) return c.fail("diophantine", std::to_string(a) + " x + " + std::to_string(b) + " y = " + std::to_string(t) + " got " + std::to_string(x.first) + "," + std::to_string(x.second));
    c.inc("integers"); log << v << ":" << k << " ";
  }
  c.state(log.str());
}

MONITOR(K18, lists, 2) {
  Rng &r = c.r; std::string text, seplist; std::vector<long> want; std::vector<std::string> parts; int n = (int)r.in(1, 12); long last = -1;
  std::vector<long> plain;
  for (int i = 0; i < n; i++) {
    long v = r.p(30) && last >= 0 ? last : r.in(0, r.p(20) ? 1000000000 : 30); last = v;
    long k = r.p(50) ? 1 : r.in(1, r.p(10) ? 200 : 6);
    if (!text.empty()) text += ",";
    if (k > 1 || r.p(20)) text += std::to_string(k) + "*"; text += std::to_string(v);
    for (long j = 0; j < k; j++) want.push_back(v); plain.push_back(v);
  }
  c.step("list " + text); auto got = commons::splitSDF3List(text); std::vector<long> g; for (auto &s : got) g.push_back(commons::fromString<long>(s));
  if (g != want) return c.fail("list-expansion", "'" + text + "' read as " + commons::toString(g));
  char d = r.pick(std::vector<char>{',', ';', ' ', '*', '\t'}); std::string joined; for (size_t i = 0; i < plain.size(); i++) joined += (i ? std::string(1, d) : std::string()) + std::to_string(plain[i]);
  if (commons::split<long>(joined, d) != plain) return c.fail("list-split", "'" + joined + "' read as " + commons::toString(commons::split<long>(joined, d)));
  if (commons::join(plain.begin(), plain.end(), std::string(1, d)) != joined) return c.fail("list-join", "'" + joined + "' written as " + commons::join(plain.begin(), plain.end(), std::string(1, d)));
  std::string txt = commons::toString(plain); for (char &ch : txt) if (ch == '{' || ch == '}') ch = ' ';
  if (commons::split<long>(txt, ',') != plain) return c.fail("list-text", commons::toString(plain));
  parameters_list_t prm; prm["x"] = std::to_string(plain[0]);
  if (commons::get_parameter<long>(prm, "x", -5) != plain[0] || commons::get_parameter<long>(prm, "y", -5) != -5) return c.fail("parameter", "x=" + prm["x"]);
  TIME_UNIT t = (TIME_UNIT)r.in(0, 1000000) / (TIME_UNIT)r.pick(std::vector<ll>{1, 2, 4, 8, 10, 100});
  if (!close(commons::fromString<TIME_UNIT>(commons::timeToString(t)), t, 1e-15L)) return c.fail("time-text", commons::timeToString(t));
  c.inc("lists"); c.inc("entries", (ll)want.size()); c.state(text);
}

MONITOR(K18, groups, 2) {
  Rng &r = c.r; int n = (int)r.in(2, 14), m = (int)r.in(1, 16); GroupList<long, long> gl; std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
  std::function<int(int)> f = [&](int x) { return p[x] == x ? x : p[x] = f(p[x]); };
  std::vector<std::array<long, 3>> ops; std::string log; int joins = 0; std::set<int> known;
  for (int i = 0; i < m; i++) {
    int a = (int)r.in(0, n - 1), b = (int)r.in(0, n - 1); long v = r.in(1, 20); ops.push_back({a, b, v}); log += std::to_string(a) + "-" + std::to_string(b) + ":" + std::to_string(v) + " ";
    if (known.count(a) && known.count(b) && f(a) != f(b)) joins++; known.insert(a); known.insert(b);
    c.step("groups " + log); gl.add(a, b, v); p[f(a)] = f(b);
  }
  std::map<int, std::set<long>> want; for (auto &o : ops) want[f((int)o[0])].insert(o[2]);
  std::multiset<std::set<long>> w, g; for (auto &x : want) w.insert(x.second); for (auto &x : gl.getall()) g.insert(x);
  if (g != w) return c.fail("groups", log + "gave " + std::to_string(g.size()) + " groups, expected " + std::to_string(w.size()) + " or other members");
  c.inc("groupings"); c.inc("joined groups", joins); c.state(log);
}

namespace {
// one full iteration (after the initial phases) can be executed from the initial tokens
bool iterationRuns(const G &g, const Reps &R, ll &fired) {
  std::vector<ll> tok, cnt(g.t.size(), 0); for (auto &e : g.e) tok.push_back(e.m0);
  auto rate = [](const std::vector<ll> &i, const std::vector<ll> &p, ll k) { return k < (ll)i.size() ? i[k] : p[(k - i.size()) % p.size()]; };
  for (bool moved = true; moved;) {
    moved = false;
    for (int t = 0; t < (int)g.t.size(); t++) while (cnt[t] < (ll)g.t[t].idur.size() + R.n[t]) {
      bool ok = true; for (size_t e = 0; e < g.e.size(); e++) if (g.e[e].d == t && tok[e] < rate(g.e[e].iout, g.e[e].out, cnt[t])) ok = false;
      if (!ok) break;
      for (size_t e = 0; e < g.e.size(); e++) { if (g.e[e].d == t) tok[e] -= rate(g.e[e].iout, g.e[e].out, cnt[t]); if (g.e[e].s == t) tok[e] += rate(g.e[e].iin, g.e[e].in, cnt[t]); }
      cnt[t]++; fired++; moved = true;
    }
  }
  for (int t = 0; t < (int)g.t.size(); t++) if (cnt[t] < (ll)g.t[t].idur.size() + R.n[t]) return false;
  return true;
}
}

MONITOR(K19, random, 4) {
  Rng &r = c.r; parameters_list_t p; auto set = [&](const char *k, ll v) { p[k] = std::to_string(v); };
  ll v0 = r.in(2, 7), v1 = v0 + r.in(0, 4), e0 = r.in(1, 9), e1 = e0 + r.in(0, 5), w = r.in(1, 6), du = r.in(1, 12), ph = r.in(1, 3), seed = r.in(0, 1000000);
  set("min_vertices_count", v0); set("max_vertices_count", v1); set("min_edges_count", e0); set("max_edges_count", e1); set("max_weight", w); set("max_duration", du); set("max_phase_quantity", ph); set("seed", seed);
  std::string head; for (auto &x : p) head += x.first + "=" + x.second + " "; head += ": ";
  c.step("random " + head);
  models::Dataflow *d = generators::generate_random_sdf(p); G g = fromKiter(d);
  if ((ll)g.t.size() < v0 || (ll)g.t.size() > v1) return c.fail("random-tasks", head + std::to_string(g.t.size()) + " tasks");
  if ((ll)g.e.size() < e0 || (ll)g.e.size() > e1) return c.fail("random-channels", head + std::to_string(g.e.size()) + " channels");
  for (auto &t : g.t) {
    if (t.dur.empty() || (ll)t.dur.size() > ph || t.idur.size()) return c.fail("random-phases", head + t.name + " " + std::to_string(t.dur.size()) + " phases " + std::to_string(t.idur.size()) + " initial");
    for (ll x : t.dur) if (x < g.dden || x > du * g.dden) return c.fail("random-duration", head + t.name);
    if (t.re != 1) return c.fail("random-reentrancy", head + t.name);
  }
  for (auto &e : g.e) {
    if (e.in.size() != g.t[e.s].dur.size() || e.out.size() != g.t[e.d].dur.size()) return c.fail("random-rates", head + e.name + " " + dump(g));
    for (ll x : e.in) if (x < 0) return c.fail("random-negative", head + dump(g)); for (ll x : e.out) if (x < 0) return c.fail("random-negative", head + dump(g));
    if (e.sumIn() < 1 || e.sumIn() > w || e.sumOut() < 1 || e.sumOut() > w) return c.fail("random-weight", head + e.name + " " + std::to_string(e.sumIn()) + "," + std::to_string(e.sumOut()));
    if (e.s == e.d) return c.fail("random-self-loop", head + e.name); if (e.m0 < 0) return c.fail("random-marking", head + e.name);
  }
  Reps R = repetition(g); if (!R.ok) return c.fail("random-inconsistent", head + dump(g));
  ll fired = 0; if (!iterationRuns(g, R, fired)) return c.fail("random-deadlock", head + dump(g));
  models::Dataflow *d2 = generators::generate_random_sdf(p); G g2 = fromKiter(d2), g1 = g; // the choice of the marked channel depends on earlier work in the process
  for (auto &e : g1.e) e.m0 = 0; for (auto &e : g2.e) e.m0 = 0;
  if (canon(g1) != canon(g2)) return c.fail("random-repeat", head + dump(g) + " then " + dump(g2));
  c.inc("random graphs"); c.inc("firings", fired); ll tk = 0; for (auto &e : g.e) tk += e.m0 > 0; c.inc("marked channels", tk); c.inc("multi-phase", !g.sdf()); c.state(sig(g)); c.sample(head + dump(g).substr(0, 300));
  delete d; delete d2;
}

MONITOR(K19, reproducible, 1) {   // two runs of the tool with the same seed
  const char *bin = getenv("KMON_BIN"); if (!bin) return;
  Rng &r = c.r; std::string arg; auto set = [&](const char *k, ll v) { arg += std::string(" -p ") + k + "=" + std::to_string(v); };
  ll v0 = r.in(2, 7), v1 = v0 + r.in(0, 4), e0 = r.in(1, 9), e1 = e0 + r.in(0, 5);
  if (r.p(80)) set("seed", r.in(0, 1000000)); set("min_vertices_count", v0); set("max_vertices_count", v1); set("min_edges_count", e0); set("max_edges_count", e1);
  set("max_weight", r.in(1, 6)); set("max_duration", r.in(1, 12)); set("max_phase_quantity", r.in(1, 3));
  std::string f[2]; c.step("generate" + arg);
  for (int i = 0; i < 2; i++) {
    f[i] = c.scratch + "/gen" + std::to_string(i) + ".xml"; remove(f[i].c_str());
    std::string env = i ? "env PADDING=" + std::string((size_t)r.in(1, 3000), 'x') + " " : ""; // another environment size moves the stack
    int rc = system((env + bin + "/kiter" + arg + " -g GenerateRandomSDF -p filename=" + f[i] + " -a PrintXML > /dev/null 2>&1").c_str());
    if (rc) return c.fail("generate-status", arg + " exit " + std::to_string(rc));
  }
  models::Dataflow *a = printers::readSDF3File(f[0]), *b = printers::readSDF3File(f[1]);
  if (!a || !b) return c.fail("generate-unreadable", arg);
  G ga = fromKiter(a), gb = fromKiter(b);
  if (canon(ga) != canon(gb)) return c.fail("generate-differs", arg + ": " + dump(ga) + " then " + dump(gb));
  Reps R = repetition(ga); ll fired = 0; if (!R.ok || !iterationRuns(ga, R, fired)) return c.fail("generate-deadlock", arg + ": " + dump(ga));
  c.inc("repeated runs"); c.state(sig(ga));
}

MONITOR(K19, lte, 1) {
  Rng &r = c.r; parameters_list_t p; const char *nm[4] = {"miwf", "cwac", "ifft", "dd"}; ll n[4]; std::string head;
  for (int i = 0; i < 4; i++) { n[i] = r.in(1, 6); p[nm[i]] = std::to_string(n[i]); head += std::string(nm[i]) + "=" + p[nm[i]] + " "; }
  head += ": "; c.step("lte " + head); models::Dataflow *d = generators::generate_lte_sdf(p); G g = fromKiter(d);
  std::map<std::string, int> stage; std::map<int, std::set<ll>> dur;
  for (int i = 0; i < 4; i++) for (ll j = 0; j < n[i]; j++) stage[std::string(nm[i]) + "_" + std::to_string(j)] = i;
  if (g.t.size() != stage.size()) return c.fail("lte-tasks", head + std::to_string(g.t.size()) + " tasks");
  for (auto &t : g.t) { if (!stage.count(t.name)) return c.fail("lte-name", head + t.name); if (t.dur.size() != 1 || t.re != 1) return c.fail("lte-task", head + t.name); dur[stage[t.name]].insert(t.dur[0]); }
  for (auto &x : dur) if (x.second.size() != 1) return c.fail("lte-duration", head);
  std::set<std::pair<int, int>> seen;
  for (auto &e : g.e) {
    if (stage[g.t[e.d].name] != stage[g.t[e.s].name] + 1) return c.fail("lte-order", head + g.t[e.s].name + "->" + g.t[e.d].name);
    if (!seen.insert({e.s, e.d}).second) return c.fail("lte-twice", head + g.t[e.s].name + "->" + g.t[e.d].name);
    if (e.m0 != 0 || e.sumIn() != e.sumOut() || e.sumIn() < 1) return c.fail("lte-channel", head + dump(g).substr(0, 400));
  }
  if ((ll)g.e.size() != n[0] * n[1] + n[1] * n[2] + n[2] * n[3]) return c.fail("lte-channels", head + std::to_string(g.e.size()) + " channels");
  Reps R = repetition(g); ll fired = 0; if (!R.ok || !iterationRuns(g, R, fired)) return c.fail("lte-deadlock", head);
  for (ll q : R.q) if (q != 1) return c.fail("lte-repetition", head);
  c.inc("lte graphs"); c.inc("firings", fired); c.state(head); delete d;
}
