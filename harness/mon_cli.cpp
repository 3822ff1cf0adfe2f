// K23: hostile documents and the command line.
#include "domain.hpp"
#include <printers/SDF3Wrapper.h>
#include <fstream>
#include <sys/wait.h>
#include <stdexcept>

namespace {
struct Span { size_t a, b; };
// every ="..." value of attribute `name` (any attribute when empty) inside elements `elem` (any when empty)
std::vector<Span> values(const std::string &s, const std::string &elem, const std::string &name) {
  std::vector<Span> v; size_t p = 0;
  while ((p = s.find('<', p)) != std::string::npos) {
    size_t q = s.find('>', p); if (q == std::string::npos) break;
    std::string tag = s.substr(p, q - p);
    bool el = elem.empty() ? tag[1] != '?' : tag.compare(1, elem.size() + 1, elem + " ") == 0;
    if (el) { size_t x = 0; while ((x = tag.find("=\"", x)) != std::string::npos) {
      size_t ns = tag.rfind(' ', x), ve = tag.find('"', x + 2); if (ve == std::string::npos) break;
      if (name.empty() || tag.substr(ns + 1, x - ns - 1) == name) v.push_back({p + x + 2, p + ve}); x = ve; } }
    p = q;
  }
  return v;
}
std::vector<Span> elements(const std::string &s) {
  std::vector<Span> v; size_t p = 0;
  while ((p = s.find('<', p)) != std::string::npos) { size_t q = s.find('>', p); if (q == std::string::npos) break; if (s[q - 1] == '/') v.push_back({p, q + 1}); p = q; }
  return v;
}
void put(std::string &s, Span x, const std::string &t) { s = s.substr(0, x.a) + t + s.substr(x.b); }
void replaceAll(std::string &s, const std::string &a, const std::string &b) { size_t p = 0; while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, a.size(), b); p += b.size(); } }
std::string slurpFile(const std::string &f) { std::ifstream i(f); std::stringstream o; o << i.rdbuf(); return o.str(); }
bool exists(const std::string &f) { return std::ifstream(f).good(); }
G cliGraph(Ctx &c) { GenOpt o; o.tmin = 2; o.tmax = 5; o.maxphase = 3; o.selfpct = 15; o.multipct = 15; o.livepct = 90; G g = genGraph(c.r, o);
  for (auto &e : g.e) if (e.s == e.d && e.m0 == 1) e.m0 = 2;   // a unit self-loop with one token reads as a reentrancy factor (K09)
  return g; }
// reads the document; an error raised by kiter is a refusal
models::Dataflow *accept(const std::string &xml) {
  try { return printers::parseSDF3XML(xml); } catch (std::runtime_error *) { return nullptr; } catch (std::exception &) { return nullptr; }
}
}

MONITOR(K23, refused, 5) {   // documents that describe no graph are refused
  Rng &r = c.r; G g = cliGraph(c); std::string xml = toXML(g, r.p(70)), ty = xml.find("<csdf ") != std::string::npos ? "csdf" : "sdf";
  std::string kind = r.pick(std::vector<std::string>{"actor", "actor", "root", "application", "graph", "properties", "rate-count", "rate-count", "rate-empty", "rate-hole", "time-empty", "time-count", "timed-actor", "port-type", "init-rates", "init-time"});
  std::string good = xml;
  // ports and channels of the graph's own channels only (in_X/out_X of R<task> stand for the reentrancy factor)
  auto ownPort = [&](Span &x) { std::vector<Span> n = values(xml, "port", "rate"), k; for (auto &y : n) { size_t p = xml.rfind("<port", y.a); std::string tag = xml.substr(p, y.b - p); bool own = false; for (auto &e : g.e) if (tag.find("\"in_" + e.name + "\"") != std::string::npos || tag.find("\"out_" + e.name + "\"") != std::string::npos) own = true; if (own) k.push_back(y); } if (k.empty()) return false; x = r.pick(k); return true; };
  Span x;
  if (kind == "actor") put(xml, r.pick(values(xml, "channel", r.p(50) ? "srcActor" : "dstActor")), r.p(50) ? "nobody" : "");
  else if (kind == "root") { replaceAll(xml, "<sdf3 ", "<sdf4 "); replaceAll(xml, "</sdf3>", "</sdf4>"); }
  else if (kind == "application") replaceAll(xml, "applicationGraph", "application");
  else if (kind == "graph") { replaceAll(xml, "<" + ty + " ", "<xsdf "); replaceAll(xml, "</" + ty + ">", "</xsdf>"); }
  else if (kind == "properties") replaceAll(xml, ty + "Properties>", "xProperties>");
  else if (kind == "rate-count") { if (!ownPort(x)) return; put(xml, {x.b, x.b}, r.p(50) ? ",1" : ",2*1"); }
  else if (kind == "rate-empty") { if (!ownPort(x)) return; put(xml, x, ""); }
  else if (kind == "rate-hole") { if (!ownPort(x)) return; put(xml, {x.a, x.a}, r.p(50) ? "," : "1,,"); }
  else if (kind == "time-empty") put(xml, r.pick(values(xml, "executionTime", "time")), "");
  else if (kind == "time-count") { // one more phase than its channels have
    std::vector<int> k; for (size_t i = 0; i < g.t.size(); i++) for (auto &e : g.e) if (e.s == (int)i || e.d == (int)i) { k.push_back((int)i); break; }
    if (k.empty()) return; int i = r.pick(k); auto v = values(xml, "executionTime", "time"); put(xml, {v[i].b, v[i].b}, ",1");
  }
  else if (kind == "init-rates") { if (!ownPort(x)) return; put(xml, {x.a, x.a}, r.p(50) ? "1;" : "0,2;"); }   // an initial phase at one port only
  else if (kind == "init-time") {   // an initial execution time of a task whose channels have no initial rate
    std::vector<int> k; for (size_t i = 0; i < g.t.size(); i++) for (auto &e : g.e) if (e.s == (int)i || e.d == (int)i) { k.push_back((int)i); break; }
    if (k.empty()) return; int i = r.pick(k); auto v = values(xml, "executionTime", "time"); put(xml, {v[i].a, v[i].a}, "2;");
  }
  else if (kind == "timed-actor") put(xml, r.pick(values(xml, "actorProperties", "actor")), r.p(50) ? "nobody" : "");
  else put(xml, r.pick(values(xml, "port", "type")), r.p(50) ? "inout" : "");
  c.step(kind + " " + xml);
  if (!accept(good)) return c.fail("document-refused", good);
  if (accept(xml)) return c.fail("document-" + kind, xml);
  c.inc("refused documents"); c.inc("kind " + kind); c.state(kind + xml);
}

MONITOR(K23, garbled, 6) {   // anything else is refused or read, and what was read can be written
  Rng &r = c.r; G g = cliGraph(c); std::string xml = toXML(g, r.p(70)), kind; int n = (int)r.in(1, 3);
  for (int i = 0; i < n; i++) {
    int k = (int)r.in(0, 8);
    if (k == 0) { xml = xml.substr(0, (size_t)r.in(0, (ll)xml.size())); kind += "cut "; }
    else if (k == 1) { auto v = elements(xml); if (v.empty()) continue; put(xml, r.pick(v), ""); kind += "drop "; }
    else if (k == 2) { auto v = elements(xml); if (v.empty()) continue; Span x = r.pick(v); xml.insert(x.b, xml.substr(x.a, x.b - x.a)); kind += "double "; }
    else if (k == 3) { auto v = values(xml, "", ""); if (v.empty()) continue; put(xml, r.pick(v), r.pick(std::vector<std::string>{"", "abc", "-3", "1,,2", "2*", "*3", "1*2*3", ",", ";", "1;", ";1", "1;2;3", "99999999999999999999", "0", "3*1", "&lt;", "&amp;&quot;", "0.5", "1e3", "nan"})); kind += "value "; }
    else if (k == 4) { auto v = values(xml, "", ""); if (v.empty()) continue; Span x = r.pick(v); size_t s = xml.rfind(' ', x.a); xml.erase(s, x.b + 1 - s); kind += "attribute "; }
    else if (k == 5) { int m = (int)r.in(1, 5); for (int j = 0; j < m && !xml.empty(); j++) xml[(size_t)r.in(0, (ll)xml.size() - 1)] = (char)r.in(1, 255); kind += "bytes "; }
    else if (k == 6) { if (xml.size() < 3) continue; size_t a = (size_t)r.in(0, (ll)xml.size() - 2), b = (size_t)r.in((ll)a, (ll)xml.size() - 1); xml = xml.substr(0, a) + xml.substr(b); kind += "gap "; }
    else if (k == 7) { auto v = elements(xml); if (v.size() < 2) continue; Span a = r.pick(v), b = r.pick(v); if (a.a >= b.a) continue; std::string ta = xml.substr(a.a, a.b - a.a), tb = xml.substr(b.a, b.b - b.a); put(xml, b, ta); put(xml, a, tb); kind += "swap "; }
    else { auto v = values(xml, "", "name"); if (v.size() < 2) continue; Span a = r.pick(v), b = r.pick(v); put(xml, a, xml.substr(b.a, b.b - b.a)); kind += "name "; }
  }
  if (r.p(3)) xml = r.pick(std::vector<std::string>{"", "<", "<a/>", "<sdf3/>", "<sdf3><applicationGraph/></sdf3>", "<sdf3><applicationGraph><csdf/><csdfProperties/></applicationGraph></sdf3>", "hello", std::string(3, '\0')});
  // a repetition like 4000000000*1 is read, one entry at a time: only a question of memory
  for (size_t p = 0, k = 0; p < xml.size(); p++) { if (isdigit((unsigned char)xml[p])) k++; else { if (xml[p] == '*' && k > 5) { c.inc("huge repetition skipped"); return; } if (!isspace((unsigned char)xml[p])) k = 0; } }
  c.step(kind + xml);
  models::Dataflow *d = accept(xml); c.inc(d ? "read" : "refused"); c.state(xml);
  if (!d) return;
  std::string out; try { out = printers::generateSDF3XML(d); } catch (std::runtime_error *) { c.inc("not writable"); } catch (std::exception &) { c.inc("not writable"); }
  if (!out.empty()) c.inc("written");
}

namespace {
struct Run { int rc; std::string out, err; };
Run run(Ctx &c, const std::string &args) {
  std::string o = c.scratch + "/cli.out", e = c.scratch + "/cli.err", cmd = std::string(getenv("KMON_BIN")) + "/kiter " + args + " > " + o + " 2> " + e;
  int st = system(cmd.c_str()); Run x; x.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); x.out = slurpFile(o); x.err = slurpFile(e); return x;
}
bool bad(const Run &x) { return x.err.find("AddressSanitizer") != std::string::npos || x.err.find("runtime error:") != std::string::npos; }
G without(const G &g, int k) { G h = g; h.t.erase(h.t.begin() + k); h.e.clear(); for (auto e : g.e) { if (e.s == k || e.d == k) continue; if (e.s > k) e.s--; if (e.d > k) e.d--; h.e.push_back(e); } return h; }
}

MONITOR(K23, commandline, 1) {   // algorithms run in the order given, on one graph, each with the parameters given before it
  if (!getenv("KMON_BIN")) return;
  Rng &r = c.r; G g = cliGraph(c); for (int i = 0; i < 8 && g.t.size() < 4; i++) g = cliGraph(c);
  std::string f = c.scratch + "/in.xml"; { std::ofstream o(f); o << toXML(g, true); }
  std::string args; bool late = r.p(25); if (!late) args += "-f " + f + " ";
  int n = (int)r.in(1, 5); struct Want { std::string file; G g; }; std::vector<Want> want, never; std::vector<G> shown; G cur = g; bool broken = false, thr = false; std::string log;
  int brk = r.p(30) ? (int)r.in(0, n - 1) : -1;
  for (int i = 0; i < n; i++) {
    if (r.p(20)) args += "-v " + std::string(r.p(50) ? "1" : "2") + " ";
    if (i == brk) { args += "-a NoSuchAlgorithm "; broken = true; continue; }
    int k = (int)r.in(0, 4);
    if (k == 4) { args += "-a PrintXML "; if (!broken) shown.push_back(cur); log += "show "; }   // no file given: to the standard output, whatever an earlier algorithm was given
    else if (k <= 1) { std::string o = c.scratch + "/out" + std::to_string(i) + ".xml"; remove(o.c_str()); args += "-p filename=" + o + " -a PrintXML "; (broken ? never : want).push_back({o, cur}); log += "print "; }
    else if (k == 2 && cur.t.size() > 2) { int t = (int)r.in(0, (ll)cur.t.size() - 1); if (r.p(30)) args += "-p unused=1 "; args += "-p taskname=" + cur.t[t].name + " -a remove "; if (!broken) cur = without(cur, t); log += "remove "; }
    else if (r.p(25)) { args += "-a RemoveReentrancy "; if (!broken) for (auto &t : cur.t) t.re = 0; log += "reentrancies "; }   // no task given: all of them
    else { int t = (int)r.in(0, (ll)cur.t.size() - 1); args += "-p taskname=" + cur.t[t].name + " -a RemoveReentrancy "; if (!broken) cur.t[t].re = 0; log += "reentrancy "; }
  }
  (void)thr; if (late) args += "-f " + f;
  c.step("kiter " + args); Run x = run(c, args);
  std::string head = "kiter " + args + " on " + dump(g) + ": ";
  if (bad(x)) return c.fail("cli-memory", head + x.err.substr(0, 1500));
  if (broken ? x.rc == 0 || x.rc >= 1000 : x.rc != 0) return c.fail("cli-status", head + "status " + std::to_string(x.rc) + " " + x.err.substr(0, 300));
  for (auto &w : want) {
    if (!exists(w.file)) return c.fail("cli-missing", head + w.file);
    models::Dataflow *d = accept(slurpFile(w.file)); if (!d) return c.fail("cli-unreadable", head + w.file);
    G h = fromKiter(d); G e = w.g; if (canon(h) != canon(e)) return c.fail("cli-result", head + "got " + dump(h) + " expected " + dump(e));
  }
  size_t at = x.out.find("<?xml"); std::vector<std::string> docs;
  while (at != std::string::npos) { size_t nx = x.out.find("<?xml", at + 1); docs.push_back(x.out.substr(at, nx == std::string::npos ? nx : nx - at)); size_t e = docs.back().rfind("</sdf3>"); if (e != std::string::npos) docs.back().resize(e + 7); at = nx; }
  if (docs.size() != shown.size()) return c.fail("cli-shown", head + std::to_string(docs.size()) + " documents on the standard output, " + std::to_string(shown.size()) + " expected");
  for (size_t i = 0; i < docs.size(); i++) {
    models::Dataflow *d = accept(docs[i]); if (!d) return c.fail("cli-unreadable", head + docs[i]);
    G h = fromKiter(d); if (canon(h) != canon(shown[i])) return c.fail("cli-result", head + "shown " + dump(h) + " expected " + dump(shown[i]));
  }
  for (auto &w : never) if (exists(w.file)) return c.fail("cli-continues", head + "ran past the unknown algorithm");
  c.inc("command lines"); c.inc("printed graphs", (ll)want.size()); c.inc("shown graphs", (ll)shown.size()); if (broken) c.inc("unknown algorithms"); c.state(log + std::to_string(brk) + sig(g));
}

MONITOR(K23, usage, 1) {   // wrong usage is reported by the exit status
  if (!getenv("KMON_BIN")) return;
  Rng &r = c.r; G g = cliGraph(c); std::string f = c.scratch + "/in.xml", o = c.scratch + "/never.xml"; { std::ofstream w(f); w << toXML(g, true); } remove(o.c_str());
  std::string tail = " -p filename=" + o + " -a PrintXML", args, kind; int want = 1;
  switch (r.in(0, 5)) {
    case 0: kind = "missing"; args = "-f " + c.scratch + "/absent" + std::to_string(r.in(0, 999)) + ".xml" + tail; break;
    case 1: kind = "nothing"; args = tail; break;
    case 2: kind = "generator"; args = "-g NoSuchGenerator" + tail; break;
    case 3: kind = "help"; args = "-f " + f + " -h" + tail; want = 0; break;
    case 4: { kind = "text"; std::ofstream w(f); for (int i = (int)r.in(0, 200); i > 0; i--) w << (char)r.in(32, 126); w << "x"; w.close(); args = "-f " + f + tail; break; }
    default: { kind = "directory"; args = "-f " + c.scratch + tail; }
  }
  c.step("kiter " + args); Run x = run(c, args); std::string head = kind + ": kiter " + args + ": ";
  if (bad(x)) return c.fail("usage-memory", head + x.err.substr(0, 1500));
  if (want == 0 ? x.rc != 0 : x.rc == 0) return c.fail("usage-status", head + "status " + std::to_string(x.rc));
  if (x.rc >= 1000 && x.err.find("terminate called") == std::string::npos) return c.fail("usage-crash", head + "signal " + std::to_string(x.rc - 1000));
  if (exists(o)) return c.fail("usage-continues", head + "algorithm ran");
  if (kind == "help" && (x.err + x.out).find("PrintXML") == std::string::npos) return c.fail("usage-help", head + "does not list PrintXML");
  c.inc("usages"); c.inc("usage " + kind); c.state(kind + sig(g));
}
