#include "oracle.hpp"
#include <cmath>
#include <queue>
#include <deque>
#include <array>

static ll g_(ll a, ll b) { return std::__gcd(a < 0 ? -a : a, b < 0 ? -b : b); }

Reps repetition(const G &g) {
  int n = g.t.size();
  Reps R;
  std::vector<ll> num(n, 0), den(n, 1);
  std::vector<int> comp(n, -1);
  int nc = 0;
  for (int s = 0; s < n; s++) {
    if (comp[s] >= 0) continue;
    comp[s] = nc; num[s] = 1; den[s] = 1;
    std::deque<int> q{s};
    while (!q.empty()) {
      int u = q.front(); q.pop_front();
      for (auto &e : g.e) {
        ll a = e.sumIn(), b = e.sumOut();
        if (a <= 0 || b <= 0) return R;
        int v; ll fn, fd;
        if (e.s == u) { v = e.d; fn = a; fd = b; }
        else if (e.d == u) { v = e.s; fn = b; fd = a; }
        else continue;
        lll x = (lll)num[u] * fn, y = (lll)den[u] * fd;
        ll k; { lll p = x, q2 = y; while (q2) { lll t = p % q2; p = q2; q2 = t; } k = (ll)p; }
        x /= k; y /= k;
        if (comp[v] < 0) { comp[v] = nc; num[v] = (ll)x; den[v] = (ll)y; q.push_back(v); }
        else if ((lll)num[v] != x || (lll)den[v] != y) return R;
      }
    }
    nc++;
  }
  R.q.assign(n, 0);
  for (int c = 0; c < nc; c++) {
    ll l = 1, gg = 0;
    for (int i = 0; i < n; i++) if (comp[i] == c) l = l / g_(l, den[i]) * den[i];
    for (int i = 0; i < n; i++) if (comp[i] == c) { R.q[i] = l / den[i] * num[i]; gg = g_(gg, R.q[i]); }
    for (int i = 0; i < n; i++) if (comp[i] == c) R.q[i] /= gg;
  }
  R.n.resize(n);
  for (int i = 0; i < n; i++) R.n[i] = R.q[i] * (ll)g.t[i].dur.size();
  R.ok = true;
  return R;
}

// ---------------------------------------------------------------------------------------------
Mcr maxCycleRatio(int nv, const std::vector<Arc> &arcs) {
  // smallest lambda >= 0 such that s_v >= s_u + w - lambda*d has a solution (w >= 0, d of any sign);
  // INFINITE when no lambda works.
  Mcr R;
  ll num = 0, den = 1;
  bool any = false;
  for (;;) {
    std::vector<lll> pot(nv, 0);
    std::vector<int> pred(nv, -1);
    // lexicographic weights: at lambda a cycle with D<0 and W=0 must be seen too, so zero-weight cycles are
    // re-examined by the second component (-d)
    int last = -1;
    std::vector<ll> pd(nv, 0);
    for (int it = 0; it <= nv; it++) {
      last = -1;
      for (int i = 0; i < (int)arcs.size(); i++) {
        auto &a = arcs[i];
        lll x = pot[a.u] + (lll)a.w * den - (lll)num * a.d;
        ll y = num == 0 ? pd[a.u] - a.d : 0;
        if (num != 0 ? x > pot[a.v] : (x > pot[a.v])) { pot[a.v] = x; pd[a.v] = y; pred[a.v] = i; last = a.v; }
      }
      if (last < 0) break;
    }
    if (last < 0) break;
    for (int i = 0; i < nv; i++) last = arcs[pred[last]].u;
    ll W = 0, D = 0; std::vector<int> cyc;
    int v = last;
    do { auto &a = arcs[pred[v]]; W += a.w; D += a.d; cyc.push_back(pred[v]); v = a.u; } while (v != last);
    std::reverse(cyc.begin(), cyc.end());
    if (D <= 0) { R.k = Mcr::INFINITE; R.cyc = cyc; return R; }
    ll k = g_(W, D); if (!k) k = 1;
    num = W / k; den = D / k; any = true; R.cyc = cyc;
  }
  if (!any) {
    // no cycle carries a positive weight; a cycle with distance <= 0 still means "never fires"
    std::vector<ll> pot(nv, 0);
    bool ch = true;
    for (int it = 0; it <= nv && ch; it++) { ch = false; for (auto &a : arcs) if (pot[a.u] - a.d * (ll)(nv + 1) + 1 > pot[a.v]) { pot[a.v] = pot[a.u] - a.d * (ll)(nv + 1) + 1; ch = true; } }
    if (ch) R.k = Mcr::INFINITE;
    return R;
  }
  R.k = Mcr::FINITE; R.num = num; R.den = den;
  return R;
}

static ll floordiv(ll a, ll b) { ll q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }

Expansion expand(const G &g, const Reps &r) {
  Expansion X;
  int n = g.t.size();
  X.n = r.n; X.base.resize(n);
  for (int i = 0; i < n; i++) { X.base[i] = X.nv; X.nv += (int)r.n[i]; }
  auto dur = [&](int t, ll k) { return g.t[t].dur[k % g.t[t].dur.size()]; };
  for (int i = 0; i < n; i++)
    if (g.t[i].re > 0)
      for (ll k = 0; k < r.n[i]; k++)
        X.arcs.push_back({X.base[i] + (int)k, X.base[i] + (int)((k + 1) % r.n[i]), dur(i, k), (k + 1 == r.n[i]) ? 1 : 0, -1 - i});
  for (int ei = 0; ei < (int)g.e.size(); ei++) {
    auto &e = g.e[ei];
    ll Ns = r.n[e.s], Nd = r.n[e.d];
    std::vector<ll> P(Ns + 1, 0), C(Nd + 1, 0);
    for (ll k = 0; k < Ns; k++) P[k + 1] = P[k] + e.in[k % e.in.size()];
    for (ll k = 0; k < Nd; k++) C[k + 1] = C[k] + e.out[k % e.out.size()];
    ll T = P[Ns];
    bool overlapping = g.t[e.s].re == 0;
    for (ll k = 0; k < Nd; k++) {
      if (C[k + 1] == C[k]) continue;
      ll need = C[k + 1] - e.m0;  // smallest x with P(x) >= need, P extended periodically
      ll it = floordiv(need - 1, T);          // need = it*T + rem, rem in 1..T
      ll rem = need - it * T;
      ll x = std::lower_bound(P.begin(), P.end(), rem) - P.begin();  // 1..Ns
      ll idx = it * Ns + x - 1;                                     // 0-based firing index
      if (!overlapping) {
        ll ev = ((idx % Ns) + Ns) % Ns, di = floordiv(idx, Ns);
        X.arcs.push_back({X.base[e.s] + (int)ev, X.base[e.d] + (int)k, dur(e.s, ev), -di, ei});
      } else {
        for (ll back = 0; back < Ns; back++) {
          ll id2 = idx - back, ev = ((id2 % Ns) + Ns) % Ns, di = floordiv(id2, Ns);
          if (e.in[ev % e.in.size()] == 0) continue;
          X.arcs.push_back({X.base[e.s] + (int)ev, X.base[e.d] + (int)k, dur(e.s, ev), -di, ei});
        }
      }
    }
  }
  return X;
}

// K-periodic schedules: firing (cycle c, phase j) of t starts at s(t, c mod K_t, j) + (c div K_t) * K_t * Omega / q_t.
// strict: firing n of t starts at s(t) + n * Omega / N_t.
static Period classPeriod(const G &g, const Reps &r, const std::vector<ll> &K, bool strict, bool approx) {
  Period p; p.k = Period::INCONSISTENT;
  int n = g.t.size();
  std::vector<ll> ev(n), per(n);  // events per task, and firings covered by one task period
  std::vector<int> base(n); int nv = 0;
  lll L = 1;
  std::vector<ll> cnt(n);         // number of task periods per graph iteration as a fraction r.n/ev
  for (int i = 0; i < n; i++) {
    ev[i] = strict ? 1 : K[i] * (ll)g.t[i].dur.size();
    base[i] = nv; nv += (int)ev[i];
    // Omega * ev / N per task period; L multiple of N/gcd(N,ev)
    ll dn = r.n[i] / g_(r.n[i], ev[i]);
    L = L / g_((ll)L, dn) * dn;
  }
  ll LL = (ll)L;
  auto pd = [&](int t) { return (ll)((lll)LL * ev[t] / r.n[t]); };  // task period in units of Omega/LL
  std::vector<Arc> arcs;
  auto dur = [&](int t, ll f) { ll ph = g.t[t].dur.size(); ll d = g.t[t].dur[((f % ph) + ph) % ph];
    if (approx) for (auto x : g.t[t].dur) d = std::max(d, x); return d; };
  std::set<std::array<ll, 5>> seen;
  auto add = [&](int u, int v, ll w, ll d, int tag) { if (seen.insert({u, v, w, d, 0}).second) arcs.push_back({u, v, w, d, tag}); };
  for (int i = 0; i < n; i++) if (g.t[i].re > 0 || strict) {
    ll E = ev[i];
    if (strict) { for (ll f = 0; f < (ll)g.t[i].dur.size(); f++) add(base[i], base[i], dur(i, f), pd(i), -1 - i); }
    else for (ll f = 0; f < E; f++) add(base[i] + f, base[i] + (f + 1) % E, dur(i, f), f + 1 == E ? pd(i) : 0, -1 - i);
  }
  for (int ei = 0; ei < (int)g.e.size(); ei++) {
    auto &e = g.e[ei];
    ll Ns = r.n[e.s], Nd = r.n[e.d];
    // firing patterns repeat after H iterations of the graph
    ll H = 1;
    { auto lc = [&](ll a, ll b) { return a / g_(a, b) * b; };
      ll a = lc(Ns, ev[e.s]) / Ns, b = lc(Nd, ev[e.d]) / Nd; H = lc(a, b); }
    std::vector<ll> P(Ns + 1, 0);
    for (ll k = 0; k < Ns; k++) P[k + 1] = P[k] + e.in[k % e.in.size()];
    ll T = P[Ns], C = 0;
    bool overlapping = g.t[e.s].re == 0 && !strict;
    for (ll k = 0; k < Nd * H; k++) {
      ll c = e.out[k % e.out.size()];
      C += c;
      if (c == 0) continue;
      ll need = C - e.m0, it = floordiv(need - 1, T), rem = need - it * T;
      ll x = std::lower_bound(P.begin(), P.end(), rem) - P.begin();
      ll idx = it * Ns + x - 1;
      ll backs = overlapping ? ev[e.s] : 1;
      for (ll b = 0; b < backs; b++) {
        ll f = idx - b;
        if (overlapping && e.in[(((f % Ns) + Ns) % Ns) % e.in.size()] == 0) continue;
        ll q = floordiv(f, ev[e.s]), u = f - q * ev[e.s];
        ll q2 = k / ev[e.d], v = k % ev[e.d];
        // s_v + q2*pd(d) >= s_u + q*pd(s) + dur
        add(base[e.s] + u, base[e.d] + v, dur(e.s, f), q2 * pd(e.d) - q * pd(e.s), ei);
      }
    }
  }
  Mcr m = maxCycleRatio(nv, arcs);
  if (m.k == Mcr::INFINITE) { p.k = Period::DEADLOCK; return p; }
  if (m.k == Mcr::NONE) { p.k = Period::UNBOUNDED; return p; }
  p.k = Period::FINITE;
  lll a = (lll)m.num * LL, b = (lll)m.den * g.dden;
  lll x = a, y = b; while (y) { lll t = x % y; x = y; y = t; }
  p.num = (ll)(a / x); p.den = (ll)(b / x);
  return p;
}
Period kPeriodicPeriod(const G &g, const std::vector<ll> &K, const Reps *as) { Reps r = as ? *as : repetition(g); if (!r.ok) { Period p; p.k = Period::INCONSISTENT; return p; } return classPeriod(g, r, K, false, false); }
Period strictPeriod(const G &g, bool approx, const Reps *as) { Reps r = as ? *as : repetition(g); if (!r.ok) { Period p; p.k = Period::INCONSISTENT; return p; } return classPeriod(g, r, {}, true, approx); }

Period exactPeriod(const G &g, const Reps *as) {
  Period p; p.k = Period::INCONSISTENT;
  Reps r = as ? *as : repetition(g);
  if (!r.ok) return p;
  Expansion X = expand(g, r);
  Mcr m = maxCycleRatio(X.nv, X.arcs);
  if (m.k == Mcr::INFINITE) { p.k = Period::DEADLOCK; return p; }
  if (m.k == Mcr::NONE) { p.k = Period::UNBOUNDED; return p; }
  p.k = Period::FINITE; p.num = m.num; p.den = m.den * g.dden;
  ll k = g_(p.num, p.den); p.num /= k; p.den /= k;
  return p;
}

G withCapacities(const G &g, const std::vector<ll> &cap) {
  G o = g;
  for (size_t i = 0; i < g.e.size(); i++) {
    if (cap[i] < 0) continue;
    GEdge b; auto &e = g.e[i];
    b.s = e.d; b.d = e.s; b.in = e.out; b.out = e.in; b.iin = e.iout; b.iout = e.iin;
    b.m0 = cap[i] - e.m0; b.name = e.name + "_space";
    o.e.push_back(b);
  }
  return o;
}

// ---------------------------------------------------------------------------------------------
SimRes simulate(const G &g, const Reps &r, ll maxFirings) {
  // self-timed execution, reentrancy 1 only (re==0 is run as unlimited copies)
  SimRes S;
  int n = g.t.size();
  std::vector<ll> tok;
  for (auto &e : g.e) tok.push_back(e.m0);
  std::vector<ll> fired(n, 0), done(n, 0);
  std::vector<std::vector<std::pair<ll, ll>>> run(n);  // (remaining, phase)
  std::map<std::vector<ll>, std::pair<ll, std::vector<ll>>> seen;
  ll now = 0;
  for (;;) {
    bool prog = true;
    ll guard = 0;
    while (prog) {
      prog = false;
      for (int i = 0; i < n; i++) {
        for (;;) {
          if (g.t[i].re > 0 && !run[i].empty()) break;
          ll ph = fired[i] % (ll)g.t[i].dur.size();
          bool can = true;
          for (size_t k = 0; k < g.e.size(); k++) if (g.e[k].d == i && tok[k] < g.e[k].out[ph]) can = false;
          if (!can) break;
          for (size_t k = 0; k < g.e.size(); k++) if (g.e[k].d == i) tok[k] -= g.e[k].out[ph];
          fired[i]++; S.firings++;
          if (++guard > 200000 || S.firings > maxFirings) return S;
          ll d = g.t[i].dur[ph];
          if (d == 0) {
            for (size_t k = 0; k < g.e.size(); k++) if (g.e[k].s == i) tok[k] += g.e[k].in[ph];
            prog = true;
          } else run[i].push_back({d, ph});
        }
      }
    }
    bool idle = true;
    for (int i = 0; i < n; i++) if (!run[i].empty()) idle = false;
    if (idle) { S.deadlock = true; return S; }
    std::vector<ll> key(tok);
    for (int i = 0; i < n; i++) {
      key.push_back(-7); key.push_back(fired[i] % (ll)g.t[i].dur.size());
      std::sort(run[i].begin(), run[i].end());
      for (auto &x : run[i]) { key.push_back(x.first); key.push_back(x.second); }
    }
    auto it = seen.find(key);
    if (it != seen.end()) {
      ll dt = now - it->second.first, df = fired[0] - it->second.second[0];
      S.found = true;
      // iterations per time = df / n0 / dt ; period = dt * n0 / df
      if (df == 0) { S.found = false; return S; }
      S.num = dt * r.n[0]; S.den = df * g.dden;
      ll k = g_(S.num, S.den); S.num /= k; S.den /= k;
      S.states = seen.size();
      return S;
    }
    seen[key] = {now, fired};
    ll step = -1;
    for (int i = 0; i < n; i++) for (auto &x : run[i]) if (step < 0 || x.first < step) step = x.first;
    now += step;
    for (int i = 0; i < n; i++) {
      std::vector<std::pair<ll, ll>> keep;
      for (auto &x : run[i]) {
        x.first -= step;
        if (x.first == 0) { for (size_t k = 0; k < g.e.size(); k++) if (g.e[k].s == i) tok[k] += g.e[k].in[x.second]; }
        else keep.push_back(x);
      }
      run[i].swap(keep);
    }
    if (S.firings > maxFirings) return S;
  }
}

ReplayRes replay(const G &g, const Reps &r, const std::vector<StartSeq> &s, ll iterations, bool checkOverlap) {
  ReplayRes R;
  // firing n of a task: its initial phases come first
  auto durOf = [&](int t, ll n) { ll I = g.t[t].idur.size(); return n < I ? g.t[t].idur[n] : g.t[t].dur[(n - I) % g.t[t].dur.size()]; };
  auto prod = [&](const GEdge &e, ll n) { ll I = e.iin.size(); return n < I ? e.iin[n] : e.in[(n - I) % e.in.size()]; };
  auto cons = [&](const GEdge &e, ll n) { ll I = e.iout.size(); return n < I ? e.iout[n] : e.out[(n - I) % e.out.size()]; };
  struct Ev { long double t; int kind; int task; ll n; };
  std::vector<Ev> ev;
  int nt = g.t.size();
  long double scale = 1;
  for (int i = 0; i < nt; i++) {
    ll total = r.n[i] * iterations + g.t[i].idur.size();
    ll ni = s[i].init.size(), np = s[i].per.size();
    if (np == 0) { R.ok = false; R.why = "task " + g.t[i].name + " has no periodic start"; return R; }
    long double prevEnd = -1e18L;
    std::vector<long double> st;
    for (ll k = 0; k < total; k++) {
      long double t = k < ni ? s[i].init[k] : s[i].per[(k - ni) % np] + s[i].period * (long double)((k - ni) / np);
      st.push_back(t);
    }
    for (ll k = 0; k < total; k++) {
      long double d = (long double)durOf(i, k) / g.dden, t = st[k];
      if (!(t > -1e15L && t < 1e15L)) { R.ok = false; R.why = "start time of " + g.t[i].name + " is not a finite number"; return R; }
      scale = std::max(scale, std::fabs(t));
      ev.push_back({t, 1, i, k});
      ev.push_back({t + d, 0, i, k});
      if (checkOverlap && g.t[i].re > 0 && t < prevEnd - 1e-6L) {
        R.ok = false; std::ostringstream o; o << "firing " << k << " of " << g.t[i].name << " starts at " << (double)t << " before firing " << k - 1 << " ends at " << (double)prevEnd; R.why = o.str(); return R;
      }
      prevEnd = std::max(prevEnd, t + d);
    }
  }
  // only compare up to the horizon at which every task still has recorded firings
  long double horizon = 1e30L;
  for (int i = 0; i < nt; i++) {
    long double m = -1e30L;
    for (auto &e : ev) if (e.task == i && e.kind == 1) m = std::max(m, e.t);
    horizon = std::min(horizon, m);
  }
  long double eps = 1e-7L * std::max<long double>(1, scale / 1000);
  std::sort(ev.begin(), ev.end(), [&](const Ev &a, const Ev &b) { return a.t < b.t; });
  // group events closer than eps: all ends of a group first, then starts, zero-duration firings by fixpoint
  std::vector<ll> tok;
  for (auto &e : g.e) tok.push_back(e.m0);
  size_t p = 0;
  while (p < ev.size() && ev[p].t <= horizon + eps) {
    size_t q = p;
    while (q < ev.size() && ev[q].t - ev[p].t <= eps) q++;
    std::vector<Ev> starts; std::vector<Ev> ends;
    for (size_t k = p; k < q; k++) (ev[k].kind ? starts : ends).push_back(ev[k]);
    std::set<std::pair<int, ll>> started;
    auto isZero = [&](const Ev &e) { return durOf(e.task, e.n) == 0; };
    for (auto &e : ends) if (!isZero(e)) {
      for (size_t k = 0; k < g.e.size(); k++) if (g.e[k].s == e.task) tok[k] += prod(g.e[k], e.n);
      R.events++;
    }
    std::sort(starts.begin(), starts.end(), [](const Ev &a, const Ev &b) { return a.n < b.n; });
    std::vector<char> dn(starts.size(), 0);
    bool prog = true; size_t left = starts.size();
    while (prog && left) {
      prog = false;
      for (size_t j = 0; j < starts.size(); j++) {
        if (dn[j]) continue;
        auto &e = starts[j];
        bool can = true;
        for (size_t k = 0; k < g.e.size(); k++) if (g.e[k].d == e.task && tok[k] < cons(g.e[k], e.n)) can = false;
        if (!can) continue;
        for (size_t k = 0; k < g.e.size(); k++) if (g.e[k].d == e.task) tok[k] -= cons(g.e[k], e.n);
        if (isZero(e)) for (size_t k = 0; k < g.e.size(); k++) if (g.e[k].s == e.task) tok[k] += prod(g.e[k], e.n);
        dn[j] = 1; left--; prog = true; R.events++;
      }
    }
    if (left) {
      for (size_t j = 0; j < starts.size(); j++) if (!dn[j]) {
        auto &e = starts[j]; std::ostringstream o;
        o << "firing " << e.n << " of " << g.t[e.task].name << " starts at " << (double)e.t << " without its input tokens";
        R.ok = false; R.why = o.str(); return R;
      }
    }
    p = q;
  }
  return R;
}

std::string dump(const G &g) {
  std::ostringstream o;
  auto vec = [&](const std::vector<ll> &v) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; };
  o << "dden=" << g.dden << " tasks:";
  for (auto &t : g.t) { o << " " << t.name << " dur="; vec(t.dur); if (!t.idur.empty()) { o << " init="; vec(t.idur); } o << " re=" << t.re << ";"; }
  o << " edges:";
  for (auto &e : g.e) { o << " " << g.t[e.s].name << "->" << g.t[e.d].name << " "; vec(e.in); vec(e.out); if (!e.iin.empty() || !e.iout.empty()) { o << " init"; vec(e.iin); vec(e.iout); } o << " m0=" << e.m0 << ";"; }
  return o.str();
}
