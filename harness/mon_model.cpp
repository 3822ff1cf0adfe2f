// Data model monitors: SDF3/Kiter text representations and the Dataflow container.
#include "domain.hpp"
#include <printers/SDF3Wrapper.h>
#include <printers/stdout.h>
#include <fstream>
#include <iomanip>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace {
// ---- full (order preserving) text of a graph -----------------------------------------------------------
std::string numText(long double v) { std::ostringstream o; o << std::setprecision(15) << v; return o.str(); }
struct Meta { std::string app, name, type; std::vector<std::string> vtype; };
std::string full(const G &g, const Meta &m) {
  std::ostringstream o;
  o << "G app=" << m.app << " name=" << m.name << " type=" << m.type << "\n";
  for (size_t i = 0; i < g.t.size(); i++) {
    auto &t = g.t[i];
    o << "T " << t.name << " type=" << (i < m.vtype.size() ? m.vtype[i] : "") << " re=" << t.re << " ";
    for (auto x : t.idur) o << numText((long double)x / g.dden) << ","; o << ";";
    for (auto x : t.dur) o << numText((long double)x / g.dden) << ","; o << "\n";
  }
  for (auto &e : g.e) {
    o << "E " << e.name << " " << g.t[e.s].name << "->" << g.t[e.d].name << " ";
    for (auto x : e.iin) o << x << ","; o << ";"; for (auto x : e.in) o << x << ","; o << "|";
    for (auto x : e.iout) o << x << ","; o << ";"; for (auto x : e.out) o << x << ",";
    o << " m" << e.m0 << " s" << e.tsize << "\n";
  }
  return o.str();
}
std::string fullOf(const models::Dataflow *d) {
  std::ostringstream o;
  o << "G app=" << d->getAppName() << " name=" << d->getGraphName() << " type=" << d->getGraphType() << "\n";
  { ForEachVertex(d, v) {
    o << "T " << d->getVertexName(v) << " type=" << d->getVertexType(v) << " re=" << d->getReentrancyFactor(v) << " ";
    for (auto x : d->getVertexInitPhaseDuration(v)) o << numText(x) << ","; o << ";";
    for (auto x : d->getVertexPhaseDuration(v)) o << numText(x) << ","; o << "\n"; } }
  { ForEachEdge(d, e) {
    o << "E " << d->getEdgeName(e) << " " << d->getVertexName(d->getEdgeSource(e)) << "->" << d->getVertexName(d->getEdgeTarget(e)) << " ";
    for (auto x : d->getEdgeInitInVector(e)) o << x << ","; o << ";"; for (auto x : d->getEdgeInVector(e)) o << x << ","; o << "|";
    for (auto x : d->getEdgeInitOutVector(e)) o << x << ","; o << ";"; for (auto x : d->getEdgeOutVector(e)) o << x << ",";
    o << " m" << d->getPreload(e) << " s" << d->getTokenSize(e) << "\n"; } }
  return o.str();
}
std::string firstDiff(const std::string &a, const std::string &b) {
  std::istringstream x(a), y(b); std::string p, q;
  while (true) { bool i = (bool)std::getline(x, p), j = (bool)std::getline(y, q); if (!i && !j) return "same"; if (!i) p = "<end>"; if (!j) q = "<end>"; if (p != q) return "expected [" + p + "] got [" + q + "]"; if (!i || !j) return "?"; }
}
// ---- workload: graphs with everything the format carries ------------------------------------------------
std::string oddName(Rng &r, int k) {
  static const std::vector<std::string> base = {"a b", "x&y", "lt<gt>", "q\"uote", "apo's", "t.1-2", "é\xC3\xA8", "under_score", "UPPER", "n;m", "100%", "R", "in_1"};
  return r.pick(base) + std::to_string(k);
}
G modelGraph(Ctx &c, Meta &m, bool odd) {
  Rng &r = c.r;
  GenOpt o; o.tmin = 1; o.tmax = 6; o.maxphase = 5; o.maxq = 5; o.selfpct = 20; o.multipct = 40; o.re0pct = 40; o.zeropct = 50; o.livepct = 20; o.connected = r.p(70); o.evmax = 100;
  G g = genGraph(r, o);
  if (r.p(30)) for (auto &t : g.t) { int n = (int)r.in(0, 3); t.idur.clear(); for (int i = 0; i < n; i++) t.idur.push_back(r.in(0, 20)); }
  for (auto &e : g.e) {
    e.iin.clear(); e.iout.clear();
    for (size_t i = 0; i < g.t[e.s].idur.size(); i++) e.iin.push_back(r.in(0, 4));
    for (size_t i = 0; i < g.t[e.d].idur.size(); i++) e.iout.push_back(r.in(0, 4));
    e.tsize = r.p(50) ? 1 : r.in(1, 5000);
    if (r.p(10)) e.m0 = r.in(0, 2000000000ll);
    bool ones = e.s == e.d && e.m0 == 1;
    for (auto x : e.in) ones &= x == 1; for (auto x : e.out) ones &= x == 1; for (auto x : e.iin) ones &= x == 1; for (auto x : e.iout) ones &= x == 1;
    if (ones) e.m0 = 2;   // such a channel *is* the notation of reentrancy
  }
  switch (r.in(0, 5)) {
    case 0: g.dden = 4; break;
    case 1: g.dden = 8; for (auto &t : g.t) for (auto &x : t.dur) x = r.in(1, 99999999); break;
    case 2: for (auto &t : g.t) for (auto &x : t.dur) x = r.in(1, 4000000000ll); break;
    case 3: g.dden = 1000; for (auto &t : g.t) for (auto &x : t.dur) x = r.in(1, 9999999); break;
    case 4: for (auto &t : g.t) for (auto &x : t.dur) if (r.p(30)) x = 0; break;
    default: break;
  }
  if (odd) {
    for (size_t i = 0; i < g.t.size(); i++) g.t[i].name = oddName(r, (int)i);
    for (size_t i = 0; i < g.e.size(); i++) g.e[i].name = oddName(r, (int)i);
  }
  m.app = odd ? oddName(r, 0) : "app"; m.name = odd ? oddName(r, 1) : "graph"; m.type = r.p(50) ? "csdf" : "T1";
  for (size_t i = 0; i < g.t.size(); i++) m.vtype.push_back(r.p(50) ? "a" : "type" + std::to_string(i));
  g.app = m.app; g.name = m.name;
  return g;
}
models::Dataflow *build(const G &g, const Meta &m) {
  models::Dataflow *d = toKiter(g);
  d->setGraphType(m.type);
  size_t i = 0; { ForEachVertex(d, v) d->setVertexType(v, m.vtype[i++]); }
  return d;
}
// ---- a small XML reader that shares nothing with libxml2 -------------------------------------------------
struct X { std::string tag; std::map<std::string, std::string> a; std::vector<X> ch; };
std::string unesc(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '&') { o += s[i]; continue; }
    size_t j = s.find(';', i); if (j == std::string::npos) { o += s[i]; continue; }
    std::string e = s.substr(i + 1, j - i - 1);
    if (e == "amp") o += '&'; else if (e == "lt") o += '<'; else if (e == "gt") o += '>'; else if (e == "quot") o += '"'; else if (e == "apos") o += '\'';
    else if (e[0] == '#') {
      long v = e[1] == 'x' ? strtol(e.c_str() + 2, 0, 16) : strtol(e.c_str() + 1, 0, 10);
      if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | ((v >> 6) & 63)); o += (char)(0x80 | (v & 63)); }
    }
    i = j;
  }
  return o;
}
bool parseX(const std::string &s, size_t &p, X &x, std::string &err) {
  auto ws = [&]() { while (p < s.size() && isspace((unsigned char)s[p])) p++; };
  while (true) { ws(); if (s.compare(p, 2, "<?") == 0) { p = s.find("?>", p); if (p == std::string::npos) { err = "pi"; return false; } p += 2; } else if (s.compare(p, 4, "<!--") == 0) { p = s.find("-->", p); if (p == std::string::npos) { err = "comment"; return false; } p += 3; } else break; }
  if (p >= s.size() || s[p] != '<') { err = "no element"; return false; }
  p++; size_t q = p; while (q < s.size() && !isspace((unsigned char)s[q]) && s[q] != '>' && s[q] != '/') q++;
  x.tag = s.substr(p, q - p); p = q;
  while (true) {
    ws(); if (p >= s.size()) { err = "eof"; return false; }
    if (s[p] == '/') { p += 2; return true; }
    if (s[p] == '>') { p++; break; }
    q = s.find('=', p); if (q == std::string::npos) { err = "attr"; return false; }
    std::string n = s.substr(p, q - p); p = q + 1; char d = s[p]; if (d != '"' && d != '\'') { err = "attr value"; return false; }
    q = s.find(d, p + 1); if (q == std::string::npos) { err = "attr end"; return false; }
    if (x.a.count(n)) { err = "duplicate attribute " + n; return false; }
    x.a[n] = unesc(s.substr(p + 1, q - p - 1)); p = q + 1;
  }
  while (true) {
    ws(); if (p >= s.size()) { err = "eof in " + x.tag; return false; }
    if (s[p] != '<') { p = std::min(s.size(), s.find('<', p)); continue; }
    if (s.compare(p, 4, "<!--") == 0) { p = s.find("-->", p); if (p == std::string::npos) { err = "comment"; return false; } p += 3; continue; }
    if (s.compare(p, 2, "</") == 0) { q = s.find('>', p); std::string n = s.substr(p + 2, q - p - 2); p = q + 1; if (n != x.tag) { err = "mismatched " + n; return false; } return true; }
    X k; if (!parseX(s, p, k, err)) return false; x.ch.push_back(k);
  }
}
void lists(const std::string &s, std::vector<std::string> &init, std::vector<std::string> &per) {
  size_t k = s.find(';'); std::string a = k == std::string::npos ? "" : s.substr(0, k), b = k == std::string::npos ? s : s.substr(k + 1);
  auto sp = [](const std::string &t, std::vector<std::string> &o) { if (t.empty()) return; std::istringstream i(t); std::string w; while (std::getline(i, w, ',')) { size_t st = w.find('*'); if (st == std::string::npos) o.push_back(w); else for (long n = atol(w.c_str()); n > 0; n--) o.push_back(w.substr(st + 1)); } };
  sp(a, init); sp(b, per);
}
// what an SDF3 document says, in the same text form as full()
std::string meaning(const std::string &xml) {
  X root; size_t p = 0; std::string err;
  if (!parseX(xml, p, root, err)) return "not well formed: " + err + "\n";
  while (p < xml.size() && (isspace((unsigned char)xml[p]) || xml.compare(p, 4, "<!--") == 0)) p = xml[p] == '<' ? xml.find("-->", p) + 3 : p + 1;
  if (p != xml.size()) return "trailing text after the document\n";
  if (root.tag != "sdf3" || root.ch.size() != 1 || root.ch[0].tag != "applicationGraph") return "no sdf3/applicationGraph\n";
  X &ag = root.ch[0]; X *gr = 0, *pr = 0;
  for (auto &k : ag.ch) { if (k.tag == "csdf" || k.tag == "sdf") gr = &k; if (k.tag == "csdfProperties" || k.tag == "sdfProperties") pr = &k; }
  if (!gr || !pr) return "no graph or properties\n";
  Meta m; m.app = ag.a["name"]; m.name = gr->a["name"]; m.type = gr->a["type"];
  std::ostringstream o; o << "G app=" << m.app << " name=" << m.name << " type=" << m.type << "\n";
  std::map<std::string, X *> act; std::map<std::string, std::string> time;
  for (auto &k : gr->ch) if (k.tag == "actor") { if (act.count(k.a["name"])) return "actor twice\n"; act[k.a["name"]] = &k; }
  for (auto &k : pr->ch) if (k.tag == "actorProperties") for (auto &q : k.ch) if (q.tag == "processor") for (auto &e : q.ch) if (e.tag == "executionTime") { if (time.count(k.a["actor"])) return "time twice\n"; time[k.a["actor"]] = e.a["time"]; }
  auto rate = [&](const std::string &a, const std::string &port, const char *ty) -> std::string {
    if (!act.count(a)) return "no actor";
    std::string r = "no port"; int n = 0; for (auto &q : act[a]->ch) if (q.tag == "port" && q.a["name"] == port && q.a["type"] == ty) { r = q.a["rate"]; n++; }
    if (n > 1) return "port twice"; std::vector<std::string> i, v; lists(r, i, v); std::string o; for (auto &x : i) o += x + ","; o += ";"; for (auto &x : v) o += x + ","; return o;
  };
  std::map<std::string, int> re; std::ostringstream eo;
  for (auto &k : gr->ch) if (k.tag == "channel") {
    std::string s = rate(k.a["srcActor"], k.a["srcPort"], "out"), d = rate(k.a["dstActor"], k.a["dstPort"], "in");
    std::string m0 = k.a.count("initialTokens") ? k.a["initialTokens"] : "0", ts = k.a.count("size") ? k.a["size"] : "1";
    bool ones = k.a["srcActor"] == k.a["dstActor"] && m0 == "1" && s.find_first_not_of("1,;") == std::string::npos && d.find_first_not_of("1,;") == std::string::npos && s.find("11") == std::string::npos && d.find("11") == std::string::npos;
    if (ones) { re[k.a["srcActor"]] = 1; continue; }
    eo << "E " << k.a["name"] << " " << k.a["srcActor"] << "->" << k.a["dstActor"] << " " << s << "|" << d << " m" << m0 << " s" << ts << "\n";
  }
  for (auto &k : gr->ch) if (k.tag == "actor") {
    std::vector<std::string> i, v; lists(time[k.a["name"]], i, v);
    o << "T " << k.a["name"] << " type=" << k.a["type"] << " re=" << re[k.a["name"]] << " ";
    for (auto &x : i) o << numText(strtold(x.c_str(), 0)) << ","; o << ";"; for (auto &x : v) o << numText(strtold(x.c_str(), 0)) << ","; o << "\n";
  }
  return o.str() + eo.str();
}
// ---- our own writer, with the freedom the format leaves --------------------------------------------------
std::string esc(const std::string &s) { std::string o; for (char ch : s) { if (ch == '&') o += "&amp;"; else if (ch == '<') o += "&lt;"; else if (ch == '"') o += "&quot;"; else if (ch == '>') o += "&gt;"; else o += ch; } return o; }
std::string vlist(Rng &r, const std::vector<ll> &init, const std::vector<ll> &v, ll den) {
  auto one = [&](const std::vector<ll> &w) {
    std::ostringstream o; o << std::setprecision(15); bool mult = r.p(40);
    for (size_t i = 0; i < w.size();) { size_t j = i; while (mult && j + 1 < w.size() && w[j + 1] == w[i]) j++; if (i) o << ","; if (j > i) o << (j - i + 1) << "*"; o << (long double)w[i] / den; i = j + 1; }
    return o.str(); };
  std::string s; if (!init.empty()) s = one(init) + ";"; return s + one(v);
}
typedef std::vector<std::pair<std::string, std::string>> Attrs;
std::string tag(Rng &r, const std::string &n, Attrs a, bool shuffle) {
  if (shuffle) for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[r.in(0, i - 1)]);
  std::string o = "<" + n; for (auto &k : a) o += " " + k.first + "=" + (k.second.find('"') == std::string::npos && r.p(20) && k.second.find('\'') == std::string::npos ? "'" + esc(k.second) + "'" : "\"" + esc(k.second) + "\"");
  return o;
}
std::string variantXML(Rng &r, const G &g, const Meta &m) {
  bool sdf = g.sdf() && r.p(50), sh = r.p(60), noise = r.p(50); std::string ty = sdf ? "sdf" : "csdf";
  auto nz = [&]() { return noise && r.p(30) ? std::string("\n <!-- note -->\n") : std::string(r.p(50) ? "\n" : " "); };
  std::ostringstream o; if (r.p(80)) o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  o << "<sdf3 type=\"" << ty << "\" version=\"1.0\">" << nz() << tag(r, "applicationGraph", {{"name", m.app}}, sh) << ">" << nz();
  std::ostringstream body;
  std::vector<std::string> chan;
  for (size_t i = 0; i < g.t.size(); i++) if (g.t[i].re) {
    Attrs a = {{"name", "self" + std::to_string(i)}, {"srcActor", g.t[i].name}, {"srcPort", "so" + std::to_string(i)}, {"dstActor", g.t[i].name}, {"dstPort", "si" + std::to_string(i)}, {"initialTokens", "1"}};
    if (r.p(50)) a.push_back({"size", "1"});
    chan.push_back(tag(r, "channel", a, sh) + "/>");
  }
  size_t nself = chan.size();
  for (size_t i = 0; i < g.e.size(); i++) { auto &e = g.e[i];
    Attrs a = {{"name", e.name}, {"srcActor", g.t[e.s].name}, {"srcPort", "p" + std::to_string(i)}, {"dstActor", g.t[e.d].name}, {"dstPort", "q" + std::to_string(i)}};
    if (e.m0 || r.p(50)) a.push_back({"initialTokens", std::to_string(e.m0)});
    if (e.tsize != 1 || r.p(50)) a.push_back({"size", std::to_string(e.tsize)});
    chan.push_back(tag(r, "channel", a, sh) + "/>"); }
  // reentrancy channels may stand anywhere; the others keep their order, which the model keeps too
  std::vector<std::string> order(chan.begin() + nself, chan.end());
  for (size_t i = 0; i < nself; i++) order.insert(order.begin() + r.in(0, order.size()), chan[i]);
  body << tag(r, ty, {{"name", m.name}, {"type", m.type}}, sh) << ">" << nz();
  for (size_t i = 0; i < g.t.size(); i++) { auto &t = g.t[i];
    std::vector<std::string> ports;
    for (size_t k = 0; k < g.e.size(); k++) { auto &e = g.e[k];
      if (e.s == (int)i) ports.push_back(tag(r, "port", {{"type", "out"}, {"name", "p" + std::to_string(k)}, {"rate", vlist(r, e.iin, e.in, 1)}}, sh) + "/>");
      if (e.d == (int)i) ports.push_back(tag(r, "port", {{"type", "in"}, {"name", "q" + std::to_string(k)}, {"rate", vlist(r, e.iout, e.out, 1)}}, sh) + "/>"); }
    if (t.re) { std::vector<ll> one(t.dur.size(), 1), ione(t.idur.size(), 1);
      ports.push_back(tag(r, "port", {{"type", "out"}, {"name", "so" + std::to_string(i)}, {"rate", vlist(r, ione, one, 1)}}, sh) + "/>");
      ports.push_back(tag(r, "port", {{"type", "in"}, {"name", "si" + std::to_string(i)}, {"rate", vlist(r, ione, one, 1)}}, sh) + "/>"); }
    if (sh) for (size_t k = ports.size(); k > 1; k--) std::swap(ports[k - 1], ports[r.in(0, k - 1)]);
    body << tag(r, "actor", {{"name", t.name}, {"type", m.vtype[i]}}, sh) << ">"; for (auto &q : ports) body << nz() << q; body << "</actor>" << nz(); }
  for (auto &k : order) body << k << nz();
  body << "</" << ty << ">" << nz();
  std::vector<std::string> pr;
  for (auto &t : g.t) {
    std::string x = tag(r, "actorProperties", {{"actor", t.name}}, sh) + "><processor type=\"p\" default=\"true\"><executionTime time=\"" + vlist(r, t.idur, t.dur, g.dden) + "\"/>";
    if (r.p(20)) x += "<memory><stateSize max=\"1\"/></memory>";
    pr.push_back(x + "</processor></actorProperties>"); }
  if (sh) for (size_t k = pr.size(); k > 1; k--) std::swap(pr[k - 1], pr[r.in(0, k - 1)]);
  std::ostringstream props; props << "<" << ty << "Properties>"; for (auto &k : pr) props << nz() << k; props << nz(); if (r.p(30)) props << "<graphProperties><timeConstraints><throughput>0.1</throughput></timeConstraints></graphProperties>"; props << "</" << ty << "Properties>" << nz();
  if (r.p(20)) o << props.str() << body.str(); else o << body.str() << props.str();
  o << "</applicationGraph>" << nz() << "</sdf3>" << nz();
  return o.str();
}
std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
}

// ---- K09 -----------------------------------------------------------------------------------------------
MONITOR(K09, roundtrip, 4) {
  Meta m; G g = modelGraph(c, m, c.r.p(40));
  if (c.r.p(8)) m.type = "";
  if (c.r.p(8)) for (auto &x : m.vtype) if (c.r.p(50)) x = "";
  std::string want = full(g, m);
  c.state(want); c.sample(want);
  c.step("generateSDF3XML " + want);
  models::Dataflow *d = build(g, m);
  std::string before = fullOf(d);
  if (before != want) { c.fail("model.readback", firstDiff(want, before)); return; }
  std::string xml = printers::generateSDF3XML(d);
  if (fullOf(d) != want) c.fail("writer.mutates", firstDiff(want, fullOf(d)));
  std::string mean = meaning(xml);
  c.inc("documents.written"); c.inc("channels.compared", g.e.size());
  if (mean != want) { c.fail("writer.meaning", firstDiff(want, mean)); return; }
  c.step("parseSDF3XML of own document " + want);
  models::Dataflow *b = printers::parseSDF3XML(xml);
  if (!b) { c.fail("reader.rejects-own", want); return; }
  if (fullOf(b) != want) { c.fail("roundtrip.differs", firstDiff(want, fullOf(b))); return; }
  c.inc("roundtrip.equal");
  std::string again = printers::generateSDF3XML(b);
  if (meaning(again) != want) c.fail("roundtrip.second", firstDiff(want, meaning(again)));
  models::Dataflow *b2 = printers::parseSDF3XML(again);
  if (printers::generateSDF3XML(b2) != again) c.fail("roundtrip.not-fixpoint", want);
}
MONITOR(K09, reader, 4) {
  Meta m; G g = modelGraph(c, m, c.r.p(40));
  std::string want = full(g, m);
  std::string xml = variantXML(c.r, g, m);
  c.state(xml); 
  if (meaning(xml) != want) { c.inc("harness.variant-mismatch"); c.fail("HARNESS.variant", firstDiff(want, meaning(xml)) + xml); return; }
  c.step("parseSDF3XML " + xml);
  models::Dataflow *b = printers::parseSDF3XML(xml);
  c.inc("documents.read");
  if (!b) { c.fail("reader.rejects", xml); return; }
  if (fullOf(b) != want) { c.fail("reader.differs", firstDiff(want, fullOf(b)) + " in " + xml); return; }
  { ForEachVertex(b, v) { if (b->getVertexByName(b->getVertexName(v)) != v || b->getVertexById(b->getVertexId(v)) != v) c.fail("reader.lookup", want); } }
  std::string f = c.scratch + "/g.xml"; { std::ofstream o(f); o << xml; }
  models::Dataflow *q = printers::readSDF3File(f);
  if (!q) { c.fail("reader.file-rejects", xml); return; }
  if (fullOf(q) != want) c.fail("reader.file-differs", firstDiff(want, fullOf(q)));
  if (q->getFilename() != f) c.fail("reader.filename", q->getFilename());
  std::string f2 = c.scratch + "/h.xml";
  printers::writeSDF3File(f2, q);
  std::string mean = meaning(slurp(f2));
  if (mean != want) c.fail("writer.file", firstDiff(want, mean));
  c.inc("files.compared");
}
MONITOR(K09, commandline, 1) {     // kiter -f F -a PrintXML, the way a user converts a graph
  const char *bin = getenv("KMON_BIN"); if (!bin) return;
  Meta m; G g = modelGraph(c, m, c.r.p(40));
  std::string want = full(g, m), xml = variantXML(c.r, g, m);
  std::string f = c.scratch + "/g.xml", out = c.scratch + "/o.xml"; { std::ofstream o(f); o << xml; }
  bool tofile = c.r.p(40);
  c.step("kiter PrintXML " + xml);
  std::string cmd = std::string(bin) + "/kiter -f " + f + (tofile ? " -p filename=" + out + " -a PrintXML" : " -a PrintXML > " + out) + " 2> " + c.scratch + "/e.txt";
  int rc = system(cmd.c_str());
  c.state(xml); c.inc("cli.runs");
  if (rc != 0) { c.fail("cli.status", "exit " + std::to_string(WEXITSTATUS(rc)) + " for " + xml); return; }
  std::string mean = meaning(slurp(out));
  if (mean != want) c.fail("cli.differs", firstDiff(want, mean) + " for " + xml);
}
// The C++ script a user pastes back into kiter: interpret its calls on a model of the API.
namespace {
std::string scriptMeaning(const std::string &s) {
  struct V { ll id; std::string name, init, dur; ll re = -1, ip = -1, np = -1; }; struct E { ll a, b; std::string iin, iout, in, out, name; ll m0 = -1; };
  std::vector<V> vs; std::vector<E> es; bool inV = false; std::istringstream i(s); std::string l; int depth = 0;
  auto arg = [](const std::string &l) { size_t p = l.find(','); size_t q = l.rfind(");"); return l.substr(p + 1, q - p - 1); };
  auto br = [](std::string x) { if (x.size() >= 2 && x.front() == '{' && x.back() == '}') x = x.substr(1, x.size() - 2); else x = "?" + x; return x; };
  while (std::getline(i, l)) {
    for (char ch : l) depth += (ch == '{') - (ch == '}');
    if (l.find("//") == 0) continue;
    size_t p;
    if ((p = l.find("addVertex(")) != std::string::npos) { V v; v.id = atoll(l.c_str() + p + 10); for (auto &x : vs) if (x.id >= v.id) return "vertex id not increasing"; vs.push_back(v); inV = true; }
    else if ((p = l.find("addEdge(")) != std::string::npos) { E e; size_t a = l.find("getVertexById("), b = l.find("getVertexById(", a + 1); e.a = atoll(l.c_str() + a + 14); e.b = atoll(l.c_str() + b + 14); es.push_back(e); inV = false; }
    else if (l.find("setVertexName(") != std::string::npos) { std::string x = arg(l); vs.back().name = x.substr(1, x.size() - 2); }
    else if (l.find("setInitPhasesQuantity(") != std::string::npos) vs.back().ip = atoll(arg(l).c_str());
    else if (l.find("setPhasesQuantity(") != std::string::npos) vs.back().np = atoll(arg(l).c_str());
    else if (l.find("setReentrancyFactor(") != std::string::npos) vs.back().re = atoll(arg(l).c_str());
    else if (l.find("setVertexInitDuration(") != std::string::npos) vs.back().init = br(arg(l));
    else if (l.find("setVertexDuration(") != std::string::npos) vs.back().dur = br(arg(l));
    else if (l.find("setEdgeInInitPhases(") != std::string::npos) es.back().iin = br(arg(l));
    else if (l.find("setEdgeOutInitPhases(") != std::string::npos) es.back().iout = br(arg(l));
    else if (l.find("setEdgeInPhases(") != std::string::npos) es.back().in = br(arg(l));
    else if (l.find("setEdgeOutPhases(") != std::string::npos) es.back().out = br(arg(l));
    else if (l.find("setPreload(") != std::string::npos) es.back().m0 = atoll(arg(l).c_str());
    else if (l.find("setEdgeName(") != std::string::npos) { std::string x = arg(l); es.back().name = x.substr(1, x.size() - 2); }
  }
  (void)inV;
  if (depth != 0) return "unbalanced braces\n";
  std::ostringstream o; auto dl = [&](const std::string &x) { std::string r; std::istringstream q(x); std::string w; while (std::getline(q, w, ',')) r += numText(strtold(w.c_str(), 0)) + ","; return r; };
  std::map<ll, V *> by;
  for (auto &v : vs) { by[v.id] = &v; auto n = [](const std::string &x) { return x.empty() ? 0 : (ll)std::count(x.begin(), x.end(), ',') + 1; };
    o << "T " << v.name << " re=" << v.re << " " << dl(v.init) << ";" << dl(v.dur) << (n(v.init) == v.ip && n(v.dur) == v.np ? "" : " phase-count") << "\n"; }
  for (auto &e : es) { if (!by.count(e.a) || !by.count(e.b)) return "edge before its tasks\n"; o << "E " << e.name << " " << by[e.a]->name << "->" << by[e.b]->name << " " << dl(e.iin) << ";" << dl(e.in) << "|" << dl(e.iout) << ";" << dl(e.out) << " m" << e.m0 << "\n"; }
  return o.str();
}
}
MONITOR(K09, script, 2) {
  Meta m; G g = modelGraph(c, m, false);
  std::ostringstream w;
  for (auto &t : g.t) { w << "T " << t.name << " re=" << t.re << " "; for (auto x : t.idur) w << numText((long double)x / g.dden) << ","; w << ";"; for (auto x : t.dur) w << numText((long double)x / g.dden) << ","; w << "\n"; }
  for (auto &e : g.e) { w << "E " << e.name << " " << g.t[e.s].name << "->" << g.t[e.d].name << " "; for (auto x : e.iin) w << x << ","; w << ";"; for (auto x : e.in) w << x << ","; w << "|"; for (auto x : e.iout) w << x << ","; w << ";"; for (auto x : e.out) w << x << ","; w << " m" << e.m0 << "\n"; }
  std::string want = w.str();
  models::Dataflow *d = build(g, m);
  c.step("PrintKiter " + want); c.state("script" + want);
  std::string got = scriptMeaning(runAlgo(d, "PrintKiter"));
  c.inc("scripts.compared");
  if (got != want) c.fail("script.differs", firstDiff(want, got));
}

// ---- K10: the container against a model, over operation histories ---------------------------------------
namespace {
struct MV { ll id; std::string name, type; ll ph = 0, iph = 0, re = -1; std::vector<long double> dur, idur; ll map = -1; bool reset = false; };
struct ME { ll id; std::string name, ip, op; ll a, b; std::vector<ll> in, out, iin, iout; ll m0 = 0, ts = 0; bool hasM = false, hasT = false; int ty = 0; };
struct Model { std::vector<MV> v; std::vector<ME> e; ll av = 1, ae = 1; bool ro = false, norm = false, rep = false; std::string gn, gt, an; };
template <class T> std::string js(const T &v) { std::ostringstream o; for (auto x : v) o << x << ","; return o.str(); }
std::string hist;
void compare(Ctx &c, models::Dataflow &d, const Model &m, const std::string &who) {
  auto bad = [&](const std::string &k, const std::string &w) { c.fail("model." + k, who + ": " + w + " after " + hist.substr(hist.size() > 1500 ? hist.size() - 1500 : 0)); };
  c.inc("states.compared");
  if (d.getVerticesCount() != (ll)m.v.size()) return bad("vertex-count", std::to_string(d.getVerticesCount()) + " instead of " + std::to_string(m.v.size()));
  if (d.getEdgesCount() != (ll)m.e.size()) return bad("edge-count", std::to_string(d.getEdgesCount()) + " instead of " + std::to_string(m.e.size()));
  if (d.getMaxVertexId() != m.av) bad("max-vertex-id", std::to_string(d.getMaxVertexId()) + " instead of " + std::to_string(m.av));
  if (d.getMaxEdgeId() != m.ae) bad("max-edge-id", std::to_string(d.getMaxEdgeId()) + " instead of " + std::to_string(m.ae));
  if (d.is_read_only() != m.ro || d.is_normalized() != m.norm || d.has_repetition_vector() != m.rep) bad("flags", "ro/norm/rep are " + std::to_string(d.is_read_only()) + std::to_string(d.is_normalized()) + std::to_string(d.has_repetition_vector()) + " instead of " + std::to_string(m.ro) + std::to_string(m.norm) + std::to_string(m.rep));
  if (d.getGraphName() != m.gn || d.getGraphType() != m.gt || d.getAppName() != m.an) bad("graph-names", d.getGraphName());
  size_t i = 0;
  { ForEachVertex((&d), v) { if (i >= m.v.size()) return bad("vertex-iteration", "too many"); auto &x = m.v[i++]; if (d.getVertexId(v) != x.id) return bad("vertex-order", std::to_string(d.getVertexId(v)) + " instead of " + std::to_string(x.id)); } }
  if (i != m.v.size()) bad("vertex-iteration", "too few");
  std::map<ll, std::set<ll>> inE, outE;
  for (auto &x : m.e) { outE[x.a].insert(x.id); inE[x.b].insert(x.id); }
  for (auto &x : m.v) {
    Vertex v; try { v = d.getVertexById(x.id); } catch (std::out_of_range &) { bad("vertex-by-id", std::to_string(x.id)); continue; }
    if (d.getVertexId(v) != x.id) bad("vertex-id", std::to_string(x.id));
    if (d.getVertexName(v) != x.name) bad("vertex-name", d.getVertexName(v) + " instead of " + x.name);
    if (!x.name.empty()) { try { if (d.getVertexByName(x.name) != v) bad("vertex-by-name", x.name); } catch (std::out_of_range &) { bad("vertex-by-name", x.name); } }
    if (d.getVertexType(v) != x.type) bad("vertex-type", x.name);
    if (d.getPhasesQuantity(v) != x.ph) bad("phases", x.name + " has " + std::to_string(d.getPhasesQuantity(v)) + " instead of " + std::to_string(x.ph));
    if (d.getInitPhasesQuantity(v) != x.iph) bad("init-phases", x.name);
    if (x.re >= 0 && d.getReentrancyFactor(v) != x.re) bad("reentrancy", x.name);
    if (d.getMapping(v) != x.map) bad("mapping", x.name);
    if (!x.dur.empty()) {
      if (js(d.getVertexPhaseDuration(v)) != js(x.dur)) bad("durations", js(d.getVertexPhaseDuration(v)) + " instead of " + js(x.dur));
      long double s = 0; for (auto y : x.dur) s += y;
      if (d.getVertexTotalDuration(v) != s) bad("total-duration", num(d.getVertexTotalDuration(v)) + " instead of " + num(s));
      for (size_t k = 1; k <= 2 * x.dur.size() + 1; k++) if (d.getVertexDuration(v, k) != x.dur[(k - 1) % x.dur.size()]) bad("duration", x.name + " phase " + std::to_string(k));
      if (x.dur.size() == 1 && d.getVertexDuration(v) != x.dur[0]) bad("duration", x.name);
    }
    if (!x.idur.empty()) {
      if (js(d.getVertexInitPhaseDuration(v)) != js(x.idur)) bad("init-durations", x.name);
      for (size_t k = 1; k <= x.idur.size(); k++) { if (d.getVertexInitDuration(v, k) != x.idur[k - 1]) bad("init-duration", x.name); if (!x.dur.empty() && d.getVertexDuration(v, (ll)k - (ll)x.idur.size()) != x.idur[k - 1]) bad("init-duration-as-phase", x.name); }
    }
    std::set<ll> gi, go; size_t ni = 0, no = 0;
    { ForInputEdges((&d), v, e) { gi.insert(d.getEdgeId(e)); ni++; } }
    { ForOutputEdges((&d), v, e) { go.insert(d.getEdgeId(e)); no++; } }
    if (gi != inE[x.id] || ni != inE[x.id].size() || d.getVertexInDegree(v) != ni) bad("input-edges", x.name);
    if (go != outE[x.id] || no != outE[x.id].size() || d.getVertexOutDegree(v) != no) bad("output-edges", x.name);
    if (d.getVertexDegree(v) != ni + no) bad("degree", x.name);
    std::set<ll> gc; { ForConnectedEdges((&d), v, e) { gc.insert(d.getEdgeId(e)); } }
    std::set<ll> wc = inE[x.id]; wc.insert(outE[x.id].begin(), outE[x.id].end());
    if (gc != wc) bad("connected-edges", x.name);
    for (auto &y : m.v) { bool w = false; for (auto &z : m.e) w |= z.a == x.id && z.b == y.id; if (d.edgeExist(v, d.getVertexById(y.id)) != w) bad("edge-exist", x.name + "->" + y.name); }
  }
  std::set<ll> seen; size_t cnt = 0;
  { ForEachEdge((&d), e) { seen.insert(d.getEdgeId(e)); cnt++; } }
  if (cnt != m.e.size() || seen.size() != m.e.size()) bad("edge-iteration", std::to_string(cnt));
  for (auto &x : m.e) {
    Edge e; try { e = d.getEdgeById(x.id); } catch (std::out_of_range &) { bad("edge-by-id", std::to_string(x.id)); continue; }
    if (d.getEdgeName(e) != x.name) bad("edge-name", d.getEdgeName(e) + " instead of " + x.name);
    if (!x.name.empty()) { try { if (d.getEdgeByName(x.name) != e) bad("edge-by-name", x.name); } catch (std::out_of_range &) { bad("edge-by-name", x.name); } }
    if (d.getVertexId(d.getEdgeSource(e)) != x.a || d.getVertexId(d.getEdgeTarget(e)) != x.b) bad("edge-ends", x.name);
    if (x.hasM && d.getPreload(e) != x.m0) bad("preload", x.name);
    if (x.hasT && d.getTokenSize(e) != x.ts) bad("token-size", x.name);
    if (d.getEdgeInputPortName(e) != x.ip || d.getEdgeOutputPortName(e) != x.op) bad("ports", x.name);
    if ((int)d.getEdgeType(e) != x.ty) bad("edge-type", x.name);
    ll si = 0, so = 0; for (auto y : x.in) si += y; for (auto y : x.out) so += y;
    if (!x.in.empty()) { if (js(d.getEdgeInVector(e)) != js(x.in) || d.getEdgeIn(e) != si || d.getEdgeInPhasesCount(e) != (ll)x.in.size()) bad("production", x.name + " " + js(d.getEdgeInVector(e)) + " total " + std::to_string(d.getEdgeIn(e)));
      for (size_t k = 1; k <= x.in.size(); k++) if (d.getEdgeInPhase(e, k) != x.in[k - 1]) bad("production-phase", x.name);
      for (size_t k = 1; k <= x.iin.size(); k++) if (d.getEdgeInPhase(e, (ll)k - (ll)x.iin.size()) != x.iin[k - 1] || d.getEdgeInInitPhase(e, k) != x.iin[k - 1]) bad("production-init-phase", x.name); }
    if (!x.out.empty()) { if (js(d.getEdgeOutVector(e)) != js(x.out) || d.getEdgeOut(e) != so || d.getEdgeOutPhasesCount(e) != (ll)x.out.size()) bad("consumption", x.name + " " + js(d.getEdgeOutVector(e)) + " total " + std::to_string(d.getEdgeOut(e)));
      for (size_t k = 1; k <= x.out.size(); k++) if (d.getEdgeOutPhase(e, k) != x.out[k - 1]) bad("consumption-phase", x.name);
      for (size_t k = 1; k <= x.iout.size(); k++) if (d.getEdgeOutPhase(e, (ll)k - (ll)x.iout.size()) != x.iout[k - 1] || d.getEdgeOutInitPhase(e, k) != x.iout[k - 1]) bad("consumption-init-phase", x.name); }
    if (!x.in.empty() && !x.out.empty()) { ll gg = 0; for (auto y : x.in) gg = std::__gcd(gg, y); for (auto y : x.out) gg = std::__gcd(gg, y); if (d.getFineGCD(e) != gg) bad("channel-gcd", x.name + " " + std::to_string(d.getFineGCD(e)) + " instead of " + std::to_string(gg)); }
    if (!x.ip.empty()) { std::set<ll> ok; for (auto &y : m.e) if (y.a == x.a && y.ip == x.ip) ok.insert(y.id); Edge q = d.getOutputEdgeByPortName(d.getVertexById(x.a), x.ip); if (q == NULL_EDGE || !ok.count(d.getEdgeId(q))) bad("edge-by-port", x.name); }
    if (!x.op.empty()) { std::set<ll> ok; for (auto &y : m.e) if (y.b == x.b && y.op == x.op) ok.insert(y.id); Edge q = d.getInputEdgeByPortName(d.getVertexById(x.b), x.op); if (q == NULL_EDGE || !ok.count(d.getEdgeId(q))) bad("edge-by-port", x.name); }
  }
  ll freeV = m.av + 7, freeE = m.ae + 7; bool t1 = false, t2 = false, t3 = false, t4 = false;
  try { d.getVertexById(freeV); } catch (std::out_of_range &) { t1 = true; } try { d.getEdgeById(freeE); } catch (std::out_of_range &) { t2 = true; }
  try { d.getVertexByName("no such task"); } catch (std::out_of_range &) { t3 = true; } try { d.getEdgeByName("no such edge"); } catch (std::out_of_range &) { t4 = true; }
  if (!t1 || !t2 || !t3 || !t4) bad("missing-lookup", "a lookup of an absent element did not report it");
  // names and ports that only resemble existing ones are absent too
  auto near = [](const std::string &n) { return std::vector<std::string>{n + "0", n.substr(0, n.size() - 1), n.substr(1), std::string(1, (char)toupper(n[0])) + n.substr(1)}; };
  if (!m.v.empty() && !m.v.back().name.empty()) for (auto &n : near(m.v.back().name)) { bool has = n.empty(), found = true; for (auto &y : m.v) has |= y.name == n; if (has) continue; try { d.getVertexByName(n); } catch (std::out_of_range &) { found = false; } if (found) bad("near-name", n); }
  if (!m.e.empty() && !m.e.back().name.empty()) for (auto &n : near(m.e.back().name)) { bool has = n.empty(), found = true; for (auto &y : m.e) has |= y.name == n; if (has) continue; try { d.getEdgeByName(n); } catch (std::out_of_range &) { found = false; } if (found) bad("near-edge-name", n); }
  for (auto &x : m.e) if (!x.ip.empty()) {
    for (auto &n : near(x.ip)) { bool has = n.empty(); for (auto &y : m.e) has |= y.a == x.a && y.ip == n; if (!has && d.getOutputEdgeByPortName(d.getVertexById(x.a), n) != NULL_EDGE) bad("near-port", n); }
    for (auto &n : near(x.op)) { bool has = n.empty(); for (auto &y : m.e) has |= y.b == x.b && y.op == n; if (!has && d.getInputEdgeByPortName(d.getVertexById(x.b), n) != NULL_EDGE) bad("near-port", n); }
  }
}
// runs f in a child and tells whether the container refused the operation
template <class F> bool refused(F f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); try { f(); } catch (...) { _exit(3); } _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) != 0;
}
}
MONITOR(K10, history, 1) {
  hist.clear(); Rng &r = c.r;
  struct Inst { models::Dataflow *d; Model m; };
  std::vector<Inst> in; in.push_back({new models::Dataflow(), Model()});
  int steps = (int)r.in(10, 70); ll uid = 0; std::string sigt;
  auto mv = [](Model &m, ll id) -> MV & { for (auto &x : m.v) if (x.id == id) return x; abort(); };
  for (int s = 0; s < steps; s++) {
    size_t w = r.in(0, in.size() - 1); models::Dataflow &d = *in[w].d; Model &m = in[w].m;
    int op = (int)r.in(0, 24); std::ostringstream h; h << "#" << w << " ";
    if (op == 24 && m.ro) op = 21;
    if (m.v.size() < 2 && op > 3 && r.p(70)) op = (int)r.in(0, 2);
    if (m.ro && op < 21) { // writes are refused until the computation is reset
      if (r.p(25)) {
        bool ok = true; int k = (int)r.in(0, 6); c.inc("rejected.readonly");
        if (k == 0) ok = refused([&] { d.addVertex("zz"); });
        else if (m.v.size() && k == 1) ok = refused([&] { d.removeVertex(d.getVertexById(m.v[0].id)); });
        else if (m.v.size() && k == 2) ok = refused([&] { d.setReentrancyFactor(d.getVertexById(m.v[0].id), 1); });
        else if (m.e.size() && k == 3) ok = refused([&] { d.setPreload(d.getEdgeById(m.e[0].id), 5); });
        else if (m.e.size() && k == 4) ok = refused([&] { d.removeEdge(d.getEdgeById(m.e[0].id)); });
        else if (m.v.size() && k == 5) ok = refused([&] { d.addEdge(d.getVertexById(m.v[0].id), d.getVertexById(m.v[0].id)); });
        else if (m.e.size() && k == 6) ok = refused([&] { d.setEdgeInPhases(d.getEdgeById(m.e[0].id), std::vector<TOKEN_UNIT>(m.e[0].in.size(), 1)); });
        if (!ok) c.fail("readonly.accepted", "write kind " + std::to_string(k) + " accepted by a read-only graph after " + hist);
        continue;
      }
      op = 21;
    }
    auto touch = [&]() { m.rep = m.norm = m.ro = false; };
    auto pv = [&]() -> MV & { return m.v[r.in(0, m.v.size() - 1)]; };
    auto pe = [&]() -> ME & { return m.e[r.in(0, m.e.size() - 1)]; };
    c.step("op " + std::to_string(op) + " after " + (hist.size() > 1200 ? hist.substr(hist.size() - 1200) : hist));
    if (op <= 2) {
      MV x; int k = (int)r.in(0, 3); Vertex v; x.name = "v" + std::to_string(uid++);
      if (k == 0) { x.name = ""; v = d.addVertex(); x.id = m.av; } else if (k == 1) { v = d.addVertex(x.name); x.id = m.av; }
      else { ll mx = 0; for (auto &y : m.v) mx = std::max(mx, y.id); x.id = mx + r.in(1, 6); if (m.v.empty() && r.p(30)) x.id = 0; if (k == 2) { v = d.addVertex(x.id); x.name = ""; } else v = d.addVertex(x.id, x.name); }
      if (x.name.empty() && r.p(80)) { x.name = "w" + std::to_string(uid++); d.setVertexName(v, x.name); }
      m.av = std::max(m.av, x.id + 1); m.v.push_back(x); touch(); h << "addVertex " << x.id << " " << x.name;
    } else if (op <= 6) {
      if (m.v.empty() || m.e.size() > 14) continue;
      ME x; x.a = pv().id; x.b = pv().id; int k = (int)r.in(0, 3); Edge e; Vertex a = d.getVertexById(x.a), b = d.getVertexById(x.b); x.name = "e" + std::to_string(uid++);
      ll nid = m.ae + r.in(0, 4); if (r.p(30)) { nid = r.in(1, m.ae); for (auto &y : m.e) if (y.id == nid) nid = m.ae; }
      if (k == 0) { x.id = m.ae; e = d.addEdge(a, b); x.name = ""; } else if (k == 1) { x.id = m.ae; e = d.addEdge(a, b, x.name); } else if (k == 2) { x.id = nid; e = d.addEdge(a, b, (ARRAY_INDEX)nid); x.name = ""; } else { x.id = nid; e = d.addEdge(a, b, (ARRAY_INDEX)nid, x.name); }
      if (x.name.empty() && r.p(80)) { x.name = "f" + std::to_string(uid++); d.setEdgeName(e, x.name); }
      m.ae = std::max(m.ae, x.id + 1); m.e.push_back(x); touch(); h << "addEdge " << x.id << " " << x.a << "->" << x.b;
    } else if (op == 7) {
      if (m.v.empty() || !r.p(40)) continue; size_t i = r.in(0, m.v.size() - 1); ll id = m.v[i].id; d.removeVertex(d.getVertexById(id)); m.v.erase(m.v.begin() + i);
      m.e.erase(std::remove_if(m.e.begin(), m.e.end(), [&](const ME &e) { return e.a == id || e.b == id; }), m.e.end()); touch(); h << "removeVertex " << id;
    } else if (op == 8) {
      if (m.e.empty()) continue; size_t i = r.in(0, m.e.size() - 1); ll id = m.e[i].id; d.removeEdge(d.getEdgeById(id)); m.e.erase(m.e.begin() + i); touch(); h << "removeEdge " << id;
    } else if (op <= 11) { // rates; the first rate given fixes the phase count of the task
      if (m.e.empty()) continue; ME &x = pe(); bool prod = r.p(50); MV &t = mv(m, prod ? x.a : x.b); ll n = t.ph > 0 ? t.ph : r.in(1, 4);
      std::vector<TOKEN_UNIT> l; for (ll i = 0; i < n; i++) l.push_back(r.in(0, r.p(20) ? 3000000000ll : 6)); if (!std::accumulate(l.begin(), l.end(), 0l)) l[0] = 1;
      if (prod) { d.setEdgeInPhases(d.getEdgeById(x.id), l); x.in.assign(l.begin(), l.end()); } else { d.setEdgeOutPhases(d.getEdgeById(x.id), l); x.out.assign(l.begin(), l.end()); }
      t.ph = n; touch(); h << (prod ? "setEdgeIn " : "setEdgeOut ") << x.id << " " << js(l);
      if (r.p(15)) { std::vector<TOKEN_UNIT> b = l; if (b.size() > 1 && r.p(50)) b.pop_back(); else b.push_back(1); c.inc("rejected.phase-count"); Edge e = d.getEdgeById(x.id); if (!refused([&] { if (prod) d.setEdgeInPhases(e, b); else d.setEdgeOutPhases(e, b); })) c.fail("phase-count.accepted", hist); }
    } else if (op == 12) {
      if (m.v.empty()) continue; MV &t = pv(); Vertex v = d.getVertexById(t.id); bool used = false; for (auto &e : m.e) used |= (e.a == t.id && !e.in.empty()) || (e.b == t.id && !e.out.empty());
      if (!used && (t.ph == 0 || r.p(30))) { t.ph = r.in(1, 4); d.setPhasesQuantity(v, t.ph); if (t.dur.size() != (size_t)t.ph) t.dur.clear(); }
      if (t.ph == 0) continue;
      std::vector<TIME_UNIT> l; for (ll i = 0; i < t.ph; i++) l.push_back((TIME_UNIT)r.in(0, r.p(20) ? 9000000000ll : 50) / (r.p(30) ? 4 : 1));
      d.setVertexDuration(v, l); t.dur.assign(l.begin(), l.end()); touch(); h << "setVertexDuration " << t.id << " " << js(l);
      if (r.p(15)) { if (l.size() > 1 && r.p(50)) l.pop_back(); else l.push_back(1); c.inc("rejected.duration-count"); if (!refused([&] { d.setVertexDuration(v, l); })) c.fail("duration-count.accepted", hist); }
    } else if (op == 13) { // initial phases
      if (m.v.empty()) continue; MV &t = pv(); Vertex v = d.getVertexById(t.id); if (t.iph) continue; t.iph = r.in(1, 3); d.setInitPhasesQuantity(v, t.iph);
      std::vector<TIME_UNIT> l; for (ll i = 0; i < t.iph; i++) l.push_back(r.in(0, 30)); d.setVertexInitDuration(v, l); t.idur.assign(l.begin(), l.end()); touch(); h << "init phases " << t.id << " " << t.iph;
      for (auto &e : m.e) { std::vector<TOKEN_UNIT> q; for (ll i = 0; i < t.iph; i++) q.push_back(r.in(0, 5)); Edge k = d.getEdgeById(e.id); if (e.a == t.id) { d.setEdgeInInitPhases(k, q); e.iin.assign(q.begin(), q.end()); } if (e.b == t.id) { d.setEdgeOutInitPhases(k, q); e.iout.assign(q.begin(), q.end()); } }
      if (r.p(40)) { // another number of initial values is refused
        c.inc("rejected.init-count"); ll n = t.iph > 1 && r.p(50) ? t.iph - 1 : t.iph + 1; std::vector<TOKEN_UNIT> q(n, 1); std::vector<TIME_UNIT> u(n, 1);
        if (!refused([&] { d.setVertexInitDuration(v, u); })) c.fail("init-duration-count.accepted", hist);
        for (auto &e : m.e) { Edge k = d.getEdgeById(e.id); if (e.a == t.id && !refused([&] { d.setEdgeInInitPhases(k, q); })) c.fail("init-count.accepted", "production of " + std::to_string(e.id) + " " + hist); if (e.b == t.id && !refused([&] { d.setEdgeOutInitPhases(k, q); })) c.fail("init-count.accepted", "consumption of " + std::to_string(e.id) + " " + hist); }
      }
    } else if (op == 14) {
      if (m.e.empty()) continue; ME &x = pe(); x.m0 = r.in(0, r.p(20) ? 4000000000ll : 30); x.hasM = true; d.setPreload(d.getEdgeById(x.id), x.m0); h << "setPreload " << x.id << " " << x.m0;
    } else if (op == 15) {
      if (m.e.empty()) continue; ME &x = pe(); Edge e = d.getEdgeById(x.id); x.ts = r.in(1, 3000000000ll); x.hasT = true; d.setTokenSize(e, x.ts); static const char *pn[] = {"0", "1", "2", "10", "11", "101", "", "p1"}; x.ip = std::string("p") + pn[r.in(0, 7)]; x.op = std::string("q") + pn[r.in(0, 7)]; d.setEdgeInputPortName(e, x.ip); d.setEdgeOutputPortName(e, x.op);
      x.ty = (int)(r.p(50) ? EDGE_TYPE::NORMAL_EDGE : EDGE_TYPE::BUFFERLESS_EDGE); d.setEdgeType(e, (EDGE_TYPE)x.ty); touch(); h << "attributes " << x.id;
    } else if (op == 16) {
      if (m.v.empty()) continue; MV &t = pv(); Vertex v = d.getVertexById(t.id); t.re = r.in(0, 3); d.setReentrancyFactor(v, t.re); t.type = "ty" + std::to_string(r.in(0, 3)); d.setVertexType(v, t.type); t.map = r.in(-1, 9); d.setMapping(v, t.map); touch(); h << "attributes of task " << t.id;
    } else if (op == 17) {
      if (m.v.empty()) continue; MV &t = pv(); Vertex v = d.getVertexById(t.id); t.name = "n" + std::to_string(uid++); d.setVertexName(v, t.name); touch(); h << "setVertexName " << t.id << " " << t.name;
      std::string other; for (auto &y : m.v) if (y.id != t.id && !y.name.empty()) other = y.name;
      if (r.p(25)) { c.inc("rejected.name"); if (!refused([&] { d.setVertexName(v, ""); })) c.fail("empty-name.accepted", hist); if (!other.empty() && !refused([&] { d.setVertexName(v, other); })) c.fail("duplicate-name.accepted", hist); }
    } else if (op == 18) {
      if (m.e.empty()) continue; ME &x = pe(); Edge e = d.getEdgeById(x.id); x.name = "m" + std::to_string(uid++); d.setEdgeName(e, x.name); touch(); h << "setEdgeName " << x.id << " " << x.name;
      std::string other; for (auto &y : m.e) if (y.id != x.id && !y.name.empty()) other = y.name;
      if (r.p(25)) { c.inc("rejected.name"); if (!refused([&] { d.setEdgeName(e, ""); })) c.fail("empty-edge-name.accepted", hist); if (!other.empty() && !refused([&] { d.setEdgeName(e, other); })) c.fail("duplicate-edge-name.accepted", hist); }
    } else if (op == 19) { // identifiers
      if (m.v.empty()) continue; MV &t = pv(); Vertex v = d.getVertexById(t.id); ll nid = r.in(0, m.av + 3); bool used = false; for (auto &y : m.v) used |= y.id == nid && y.id != t.id;
      if (used) { c.inc("rejected.vertex-id"); if (!refused([&] { d.setVertexId(v, nid); })) c.fail("duplicate-vertex-id.accepted", hist); continue; }
      d.setVertexId(v, nid); for (auto &e : m.e) { if (e.a == t.id) e.a = -5; if (e.b == t.id) e.b = -5; } for (auto &e : m.e) { if (e.a == -5) e.a = nid; if (e.b == -5) e.b = nid; } t.id = nid; m.av = std::max(m.av, nid + 1); touch(); h << "setVertexId " << nid;
    } else if (op == 20) {
      if (m.e.empty()) continue; ME &x = pe(); Edge e = d.getEdgeById(x.id); ll nid = r.in(0, m.ae + 3); bool used = nid == 0; for (auto &y : m.e) used |= y.id == nid && y.id != x.id;
      if (used) { c.inc("rejected.edge-id"); if (!refused([&] { d.setEdgeId(e, nid); })) c.fail("duplicate-edge-id.accepted", std::to_string(nid) + " " + hist); continue; }
      d.setEdgeId(e, nid); x.id = nid; m.ae = std::max(m.ae, nid + 1); touch(); h << "setEdgeId " << nid;
    } else if (op == 21) { d.reset_computation(); touch(); h << "reset"; }
    else if (op == 22) { // a copy lives its own life
      if (in.size() >= 3) { size_t k = r.in(0, in.size() - 1); delete in[k].d; in.erase(in.begin() + k); h << "delete #" << k; } else { Model cm = m; models::Dataflow *nd; if (r.p(50)) nd = new models::Dataflow(d); else { nd = new models::Dataflow(); if (r.p(50)) nd->addVertex("old"); *nd = d; } in.push_back({nd, cm}); h << "copy"; c.inc("copies"); }
    } else if (op == 23) { // analysis marks the graph
      if (!m.ro && r.p(70)) for (auto &e : m.e) for (int side = 0; side < 2; side++) { // complete the missing rates
        auto &v = side ? e.out : e.in; if (!v.empty()) continue; MV &t = mv(m, side ? e.b : e.a); ll n = t.ph > 0 ? t.ph : 2; std::vector<TOKEN_UNIT> l(n, 0); l[0] = 3; Edge k = d.getEdgeById(e.id);
        if (side) d.setEdgeOutPhases(k, l); else d.setEdgeInPhases(k, l); v.assign(l.begin(), l.end()); t.ph = n; touch(); }
      bool ready = !m.v.empty() && !m.e.empty(); for (auto &e : m.e) ready &= !e.in.empty() && !e.out.empty(); for (auto &t : m.v) ready &= t.ph > 0;
      // weakly connected?
      if (ready) { std::set<ll> seen{m.v[0].id}; for (size_t k = 0; k < m.v.size(); k++) for (auto &e : m.e) { if (seen.count(e.a)) seen.insert(e.b); if (seen.count(e.b)) seen.insert(e.a); } ready = seen.size() == m.v.size(); }
      for (auto &e : m.e) for (auto x : e.in) if (x > 1000) ready = false; for (auto &e : m.e) for (auto x : e.out) if (x > 1000) ready = false;
      if (!ready) continue; bool ok = computeRepetitionVector(&d); m.rep = ok; if (ok) m.ro = true; else { m.ro = d.is_read_only(); } h << "computeRepetitionVector " << ok; c.inc(ok ? "analysed" : "analysed.inconsistent");
    } else { d.setId(r.in(0, 9)); m.gn = "gn" + std::to_string(r.in(0, 3)); d.setGraphName(m.gn); m.gt = "gt" + std::to_string(r.in(0, 3)); d.setGraphType(m.gt); m.an = "an" + std::to_string(r.in(0, 3)); d.setAppName(m.an); if (m.ro) continue; touch(); h << "names"; }
    hist += h.str() + "; "; sigt += h.str();
    c.inc("operations");
    for (size_t k = 0; k < in.size(); k++) if (k == w || r.p(30)) compare(c, *in[k].d, in[k].m, "instance " + std::to_string(k));
  }
  c.state(sigt); c.sample(sigt);
}
