#include "bridge.hpp"
#include <iostream>
#include <cmath>
#include <cstring>
#include <cstdlib>

// Identifiers are the caller's business (addVertex(id), addEdge(.., id), what transformations leave behind): for a share of the
// graphs, a function of the graph alone, they are increasing but neither start at 1 nor are consecutive.
bool idGaps(const G &g) {
  static const char *force = getenv("KMON_GAPS");
  if (force) return atoi(force);
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](ll x) { h = (h ^ (uint64_t)x) * 1099511628211ull; };
  for (auto &t : g.t) for (auto x : t.dur) mix(x);
  for (auto &e : g.e) { mix(e.s); mix(e.d); mix(e.m0); }
  return (h >> 20) % 5 == 0;
}

models::Dataflow *toKiter(const G &g) {
  bool gaps = idGaps(g); ARRAY_INDEX vn = 0, en = 0;
  models::Dataflow *d = new models::Dataflow();
  d->setGraphName(g.name); d->setAppName(g.app); d->setGraphType("csdf");
  std::vector<Vertex> vs;
  for (auto &t : g.t) {
    vn++; Vertex v = gaps ? d->addVertex(3 * vn + 4 + g.t.size(), t.name) : d->addVertex(t.name);
    d->setPhasesQuantity(v, t.dur.size());
    d->setInitPhasesQuantity(v, t.idur.size());
    std::vector<TIME_UNIT> l, il;
    for (auto x : t.dur) l.push_back((TIME_UNIT)x / g.dden);
    for (auto x : t.idur) il.push_back((TIME_UNIT)x / g.dden);
    d->setVertexDuration(v, l);
    d->setVertexInitDuration(v, il);
    d->setReentrancyFactor(v, t.re);
    vs.push_back(v);
  }
  for (auto &e : g.e) {
    en++; Edge c = gaps ? d->addEdge(vs[e.s], vs[e.d], 2 * en + 5 + g.e.size(), e.name) : d->addEdge(vs[e.s], vs[e.d], e.name);
    d->setEdgeInPhases(c, std::vector<TOKEN_UNIT>(e.in.begin(), e.in.end()));
    d->setEdgeOutPhases(c, std::vector<TOKEN_UNIT>(e.out.begin(), e.out.end()));
    d->setEdgeInInitPhases(c, std::vector<TOKEN_UNIT>(e.iin.begin(), e.iin.end()));
    d->setEdgeOutInitPhases(c, std::vector<TOKEN_UNIT>(e.iout.begin(), e.iout.end()));
    d->setPreload(c, e.m0);
    d->setTokenSize(c, e.tsize);
    d->setEdgeInputPortName(c, "in_" + e.name);
    d->setEdgeOutputPortName(c, "out_" + e.name);
  }
  return d;
}

G fromKiter(const models::Dataflow *d) {
  G g; g.name = d->getGraphName(); g.app = d->getAppName();
  std::map<ARRAY_INDEX, int> idx;
  std::vector<Vertex> vs;
  ll den = 1;
  ForEachVertex(d, v) vs.push_back(v);
  for (auto v : vs) for (auto x : d->getVertexPhaseDuration(v)) { while (den < 1000000 && std::fabs(x * den - std::round(x * den)) > 1e-9L) den = den % 2 ? den * 2 : (den == 4 ? 10 : (den < 8 ? den * 2 : den * 10)); }
  g.dden = den;
  for (auto v : vs) {
    GTask t; t.name = d->getVertexName(v); t.re = (int)d->getReentrancyFactor(v);
    for (auto x : d->getVertexPhaseDuration(v)) t.dur.push_back((ll)std::llround(x * den));
    for (auto x : d->getVertexInitPhaseDuration(v)) t.idur.push_back((ll)std::llround(x * den));
    idx[d->getVertexId(v)] = g.t.size();
    g.t.push_back(t);
  }
  ForEachEdge(d, e) {
    GEdge x; x.name = d->getEdgeName(e);
    x.s = idx[d->getVertexId(d->getEdgeSource(e))]; x.d = idx[d->getVertexId(d->getEdgeTarget(e))];
    for (auto k : d->getEdgeInVector(e)) x.in.push_back(k);
    for (auto k : d->getEdgeOutVector(e)) x.out.push_back(k);
    for (auto k : d->getEdgeInitInVector(e)) x.iin.push_back(k);
    for (auto k : d->getEdgeInitOutVector(e)) x.iout.push_back(k);
    x.m0 = d->getPreload(e); x.tsize = d->getTokenSize(e);
    g.e.push_back(x);
  }
  return g;
}

static std::string list(const std::vector<ll> &init, const std::vector<ll> &v, ll den = 1) {
  std::ostringstream o;
  auto num = [&](ll x) {
    if (den == 1 || x % den == 0) o << x / den;
    else { o << (double)x / den; }
  };
  for (size_t i = 0; i < init.size(); i++) { if (i) o << ","; num(init[i]); }
  if (!init.empty()) o << ";";
  for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; num(v[i]); }
  return o.str();
}

std::string toXML(const G &g, bool csdf) {
  std::ostringstream o;
  const char *ty = csdf ? "csdf" : "sdf";
  o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<sdf3 type=\"" << ty << "\" version=\"1.0\">\n<applicationGraph name=\"" << g.app << "\">\n<" << ty << " name=\"" << g.name << "\" type=\"" << g.name << "\">\n";
  for (size_t i = 0; i < g.t.size(); i++) {
    auto &t = g.t[i];
    o << "<actor name=\"" << t.name << "\" type=\"a\">\n";
    for (auto &e : g.e) {
      if (e.s == (int)i) o << "<port type=\"out\" name=\"in_" << e.name << "\" rate=\"" << list(e.iin, e.in) << "\"/>\n";
      if (e.d == (int)i) o << "<port type=\"in\" name=\"out_" << e.name << "\" rate=\"" << list(e.iout, e.out) << "\"/>\n";
    }
    if (t.re > 0) {
      std::vector<ll> ones(t.dur.size(), 1), iones(t.idur.size(), 1);
      o << "<port type=\"out\" name=\"in_R" << t.name << "\" rate=\"" << list(iones, ones) << "\"/>\n";
      o << "<port type=\"in\" name=\"out_R" << t.name << "\" rate=\"" << list(iones, ones) << "\"/>\n";
    }
    o << "</actor>\n";
  }
  for (size_t i = 0; i < g.t.size(); i++) {
    auto &t = g.t[i];
    if (t.re > 0) o << "<channel name=\"R" << t.name << "\" srcActor=\"" << t.name << "\" srcPort=\"in_R" << t.name << "\" dstActor=\"" << t.name << "\" dstPort=\"out_R" << t.name << "\" size=\"1\" initialTokens=\"1\"/>\n";
  }
  for (auto &e : g.e)
    o << "<channel name=\"" << e.name << "\" srcActor=\"" << g.t[e.s].name << "\" srcPort=\"in_" << e.name << "\" dstActor=\"" << g.t[e.d].name << "\" dstPort=\"out_" << e.name << "\" size=\"" << e.tsize << "\" initialTokens=\"" << e.m0 << "\"/>\n";
  o << "</" << ty << ">\n<" << ty << "Properties>\n";
  for (auto &t : g.t)
    o << "<actorProperties actor=\"" << t.name << "\"><processor type=\"p\" default=\"true\"><executionTime time=\"" << list(t.idur, t.dur, g.dden) << "\"/></processor></actorProperties>\n";
  o << "</" << ty << "Properties>\n</applicationGraph>\n</sdf3>\n";
  return o.str();
}

Capture::Capture() { std::cout.flush(); old = std::cout.rdbuf(ss.rdbuf()); std::cout.unsetf(std::ios::floatfield); std::cout.precision(6); }
Capture::~Capture() { std::cout.rdbuf(old); }
std::string Capture::str() { return ss.str(); }

std::string runAlgo(models::Dataflow *d, const std::string &name, parameters_list_t p) {
  const transformation_t *t = KiterRegistry<transformation_t>::get(name);
  if (!t) { std::cerr << "HARNESS: no algorithm " << name << "\n"; abort(); }
  Capture c;
  t->fun(d, p);
  return c.str();
}

bool findNumber(const std::string &out, const std::string &prefix, long double &v) {
  size_t p = out.rfind(prefix);
  if (p == std::string::npos) return false;
  p += prefix.size();
  const char *s = out.c_str() + p;
  while (*s == ' ') s++;
  if (!strncmp(s, "is", 2)) s += 2;
  char *e;
  v = strtold(s, &e);
  return e != s;
}

std::string canon(const G &g) {
  std::vector<std::string> L;
  std::ostringstream h; h << "dden";
  for (auto &t : g.t) {
    std::ostringstream o; o << "T " << t.name << " re" << (t.re > 0) << " :";
    for (auto x : t.idur) o << (double)x / g.dden << ",";
    o << ";";
    for (auto x : t.dur) o << (double)x / g.dden << ",";
    L.push_back(o.str());
  }
  for (auto &e : g.e) {
    std::ostringstream o; o << "E " << e.name << " " << g.t[e.s].name << "->" << g.t[e.d].name << " ";
    for (auto x : e.iin) o << x << ","; o << ";"; for (auto x : e.in) o << x << ","; o << "|";
    for (auto x : e.iout) o << x << ","; o << ";"; for (auto x : e.out) o << x << ",";
    o << " m" << e.m0 << " s" << e.tsize;
    L.push_back(o.str());
  }
  std::sort(L.begin(), L.end());
  std::string r; for (auto &x : L) r += x + "\n";
  return r;
}
