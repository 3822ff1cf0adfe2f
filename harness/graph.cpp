#include "graph.hpp"
#include "oracle.hpp"

static std::vector<ll> mulv(std::vector<ll> v, ll k) { for (auto &x : v) x *= k; return v; }

G genGraph(Rng &r, const GenOpt &o) {
  for (int attempt = 0;; attempt++) {
    G g;
    int n = (int)r.in(o.tmin, o.tmax);
    std::vector<ll> q(n), ph(n);
    ll ev = 0, gg = 0;
    for (int i = 0; i < n; i++) { q[i] = r.in(1, o.maxq); gg = std::__gcd(gg, q[i]); }
    for (int i = 0; i < n; i++) q[i] /= gg;
    for (int i = 0; i < n; i++) { ph[i] = r.in(1, o.maxphase); ev += q[i] * ph[i]; }
    if (ev > o.evmax) { if (attempt > 200) { for (auto &x : q) x = 1; for (auto &x : ph) x = 1; } else continue; }
    bool zeros = r.p(o.zeropct);
    for (int i = 0; i < n; i++) {
      GTask t; t.name = "t" + std::to_string(i);
      for (ll k = 0; k < ph[i]; k++) t.dur.push_back(r.in(o.mindur, o.maxdur));
      t.re = r.p(o.re0pct) ? 0 : 1;
      g.t.push_back(t);
    }
    auto addEdge = [&](int a, int b) {
      GEdge e; e.s = a; e.d = b;
      ll k = std::__gcd(q[a], q[b]);
      ll m = r.in(1, o.maxmult);
      ll pt = q[b] / k * m, ct = q[a] / k * m;
      e.in = splitTotal(r, pt, (int)ph[a], zeros);
      e.out = splitTotal(r, ct, (int)ph[b], zeros);
      if (!zeros) { // keep every phase active: scale up when the total is smaller than the phase count
        ll f = 1; while (pt * f < ph[a] || ct * f < ph[b]) f++;
        e.in = splitTotal(r, pt * f, (int)ph[a], false);
        e.out = splitTotal(r, ct * f, (int)ph[b], false);
      }
      e.name = "c" + std::to_string(g.e.size());
      e.m0 = r.p(50) ? 0 : r.in(0, o.tokslack * (pt + ct));
      g.e.push_back(e);
    };
    std::vector<int> perm(n);
    for (int i = 0; i < n; i++) perm[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.in(0, i)]);
    std::set<std::pair<int, int>> have;
    for (int i = 1; i < n; i++) {
      if (!o.connected && r.p(15)) continue;
      int j = (int)r.in(0, i - 1);
      addEdge(perm[j], perm[i]); have.insert({perm[j], perm[i]});
    }
    if (o.strong && n > 1) {
      // close every leaf back to the root
      for (int i = 1; i < n; i++) { bool leaf = true; for (auto &e : g.e) if (e.s == perm[i]) leaf = false; if (leaf) addEdge(perm[i], perm[0]); }
      if (n == 1) addEdge(0, 0);
    }
    int ex = (int)r.in(0, o.extra);
    for (int k = 0; k < ex && n > 1; k++) {
      int a = (int)r.in(0, n - 1), b = (int)r.in(0, n - 1);
      if (a > b) std::swap(a, b);
      if (a == b) { if (r.p(o.selfpct * 3)) addEdge(perm[a], perm[a]); continue; }
      int x = perm[a], y = perm[b];
      if (r.p(o.backpct)) std::swap(x, y);
      if (have.count({x, y}) && !r.p(o.multipct)) continue;
      have.insert({x, y});
      addEdge(x, y);
    }
    for (int i = 0; i < n; i++) if (r.p(o.selfpct)) addEdge(i, i);
    // shuffle the declaration order of the edges
    for (int i = (int)g.e.size() - 1; i > 0; i--) std::swap(g.e[i], g.e[r.in(0, i)]);
    for (size_t i = 0; i < g.e.size(); i++) g.e[i].name = "c" + std::to_string(i);
    if (r.p(o.livepct)) {
      Reps R = repetition(g);
      for (int it = 0; it < 400; it++) {
        Expansion X = expand(g, R);
        // find a zero-distance cycle and add tokens on one of its channels
        std::vector<int> color(X.nv, 0), par(X.nv, -1);
        std::vector<std::vector<int>> out(X.nv);
        for (int i = 0; i < (int)X.arcs.size(); i++) if (X.arcs[i].d <= 0) out[X.arcs[i].u].push_back(i);
        int hit = -1; std::vector<int> stackEdges;
        for (int s = 0; s < X.nv && hit < 0; s++) {
          if (color[s]) continue;
          std::vector<std::pair<int, size_t>> st{{s, 0}}; color[s] = 1;
          while (!st.empty() && hit < 0) {
            int u = st.back().first; size_t &k = st.back().second;
            if (k == out[u].size()) { color[u] = 2; st.pop_back(); if (!stackEdges.empty()) stackEdges.pop_back(); continue; }
            int ai = out[u][k++]; int v = X.arcs[ai].v;
            if (color[v] == 1) { stackEdges.push_back(ai); hit = v; }
            else if (!color[v]) { color[v] = 1; st.push_back({v, 0}); stackEdges.push_back(ai); }
          }
        }
        if (hit < 0) break;
        std::vector<int> ch;
        for (int k = (int)stackEdges.size() - 1; k >= 0; k--) { auto &a = X.arcs[stackEdges[k]]; if (a.tag >= 0) ch.push_back(a.tag); if (a.u == hit) break; }
        if (ch.empty()) break;
        GEdge &e = g.e[ch[r.in(0, ch.size() - 1)]];
        e.m0 += r.in(1, std::max<ll>(1, e.sumOut()));
      }
    }
    return g;
  }
}
