#include <cstdio>
#include "oracle.h"
#include <algorithm>
#include <map>
#include <climits>
Edge norm(int a, int b) { return a < b ? Edge(a, b) : Edge(b, a); }
Adj adjOf(const UG &g) { Adj a(g.n); for (auto &x : g.e) { a[x.first].push_back(x.second); a[x.second].push_back(x.first); } return a; }
std::set<Edge> edgeSet(const UG &g) { std::set<Edge> s; for (auto &x : g.e) s.insert(norm(x.first, x.second)); return s; }
std::vector<int> componentsOf(const UG &g, int *count) {
  Adj a = adjOf(g); std::vector<int> c(g.n, -1); int k = 0; std::vector<int> st;
  for (int s = 0; s < g.n; ++s) if (c[s] < 0) {
    c[s] = k; st.push_back(s);
    while (!st.empty()) { int v = st.back(); st.pop_back(); for (int w : a[v]) if (c[w] < 0) { c[w] = k; st.push_back(w); } }
    ++k;
  }
  if (count) *count = k;
  return c;
}
bool isConnected(const UG &g) { int k; componentsOf(g, &k); return k <= 1; }

static UG compact(const std::vector<Edge> &es) {
  std::map<int,int> id; UG h;
  auto get = [&](int v) { auto it = id.find(v); if (it != id.end()) return it->second; int k = (int)id.size(); id[v] = k; return k; };
  for (auto &x : es) { int a = get(x.first), b = get(x.second); h.e.push_back({a, b}); }
  h.n = (int)id.size(); return h;
}
std::vector<UG> biconnected(const UG &g) {
  std::vector<std::vector<std::pair<int,int>>> a(g.n);
  for (int i = 0; i < g.m(); ++i) { a[g.e[i].first].push_back({g.e[i].second, i}); a[g.e[i].second].push_back({g.e[i].first, i}); }
  std::vector<int> num(g.n, 0), low(g.n, 0), it(g.n, 0), par(g.n, -1); int t = 0; std::vector<int> es; std::vector<UG> out;
  std::vector<char> done(g.m(), 0);
  for (int s = 0; s < g.n; ++s) if (!num[s]) {
    std::vector<int> st{s}; num[s] = low[s] = ++t;
    while (!st.empty()) {
      int v = st.back();
      if (it[v] < (int)a[v].size()) {
        auto [w, i] = a[v][it[v]++];
        if (done[i]) continue;
        done[i] = 1; es.push_back(i);
        if (!num[w]) { num[w] = low[w] = ++t; par[w] = i; st.push_back(w); }
        else low[v] = std::min(low[v], num[w]);
      } else {
        st.pop_back();
        if (!st.empty()) {
          int u = st.back(); low[u] = std::min(low[u], low[v]);
          if (low[v] >= num[u]) {
            std::vector<Edge> b;
            for (;;) { int i = es.back(); es.pop_back(); b.push_back(g.e[i]); if (i == par[v]) break; }
            out.push_back(compact(b));
          }
        }
      }
    }
  }
  return out;
}

namespace {
struct Iv { int low = -1, high = -1; bool empty() const { return low < 0 && high < 0; } };
struct CP { Iv l, r; void swap() { std::swap(l, r); } };
struct LR {
  int n, m; const UG &g; std::vector<std::vector<std::pair<int,int>>> adj; std::vector<std::vector<int>> out;
  std::vector<int> height, parent, lowpt, lowpt2, nest, src, dst, ref, lowEdge, bottom; std::vector<char> orient; std::vector<CP> S;
  explicit LR(const UG &g_) : n(g_.n), m(g_.m()), g(g_), adj(n), out(n), height(n, -1), parent(n, -1), lowpt(m), lowpt2(m), nest(m), src(m), dst(m), ref(m, -1), lowEdge(m, -1), bottom(m, 0), orient(m, 0) {
    for (int i = 0; i < m; ++i) { adj[g.e[i].first].push_back({g.e[i].second, i}); adj[g.e[i].second].push_back({g.e[i].first, i}); }
  }
  void finishEdge(int v, int i) {
    int e = parent[v];
    nest[i] = 2 * lowpt[i]; if (lowpt2[i] < height[v]) nest[i]++;
    if (e >= 0) {
      if (lowpt[i] < lowpt[e]) { lowpt2[e] = std::min(lowpt[e], lowpt2[i]); lowpt[e] = lowpt[i]; }
      else if (lowpt[i] > lowpt[e]) lowpt2[e] = std::min(lowpt2[e], lowpt[i]);
      else lowpt2[e] = std::min(lowpt2[e], lowpt2[i]);
    }
  }
  void dfs1(int root) {
    std::vector<int> st{root}, it(n, 0); height[root] = 0; std::vector<int> pend(n, -1);
    while (!st.empty()) {
      int v = st.back();
      if (pend[v] >= 0) { finishEdge(v, pend[v]); pend[v] = -1; }
      if (it[v] >= (int)adj[v].size()) { st.pop_back(); continue; }
      auto [w, i] = adj[v][it[v]++];
      if (orient[i]) continue;
      orient[i] = 1; src[i] = v; dst[i] = w; out[v].push_back(i); lowpt[i] = lowpt2[i] = height[v];
      if (height[w] < 0) { parent[w] = i; height[w] = height[v] + 1; pend[v] = i; st.push_back(w); }
      else { lowpt[i] = height[w]; finishEdge(v, i); }
    }
  }
  bool conf(const Iv &I, int b) { return !I.empty() && lowpt[I.high] > lowpt[b]; }
  int lowest(const CP &p) { if (p.l.empty()) return lowpt[p.r.low]; if (p.r.empty()) return lowpt[p.l.low]; return std::min(lowpt[p.l.low], lowpt[p.r.low]); }
  bool addC(int ei, int e) {
    CP P;
    do {
      CP Q = S.back(); S.pop_back();
      if (!Q.l.empty()) Q.swap();
      if (!Q.l.empty()) return false;
      if (lowpt[Q.r.low] > lowpt[e]) { if (P.r.empty()) P.r = Q.r; else ref[P.r.low] = Q.r.high; P.r.low = Q.r.low; }
      else ref[Q.r.low] = lowEdge[e];
    } while ((int)S.size() != bottom[ei]);
    while (!S.empty() && (conf(S.back().l, ei) || conf(S.back().r, ei))) {
      CP Q = S.back(); S.pop_back();
      if (conf(Q.r, ei)) Q.swap();
      if (conf(Q.r, ei)) return false;
      if (P.r.low >= 0) ref[P.r.low] = Q.r.high;
      if (Q.r.low >= 0) P.r.low = Q.r.low;
      if (P.l.empty()) P.l = Q.l; else ref[P.l.low] = Q.l.high;
      P.l.low = Q.l.low;
    }
    if (!(P.l.empty() && P.r.empty())) S.push_back(P);
    return true;
  }
  void trim(int e) {
    int u = src[e];
    while (!S.empty() && lowest(S.back()) == height[u]) S.pop_back();
    if (S.empty()) return;
    CP P = S.back(); S.pop_back();
    while (P.l.high >= 0 && dst[P.l.high] == u) P.l.high = ref[P.l.high];
    if (P.l.high < 0 && P.l.low >= 0) { ref[P.l.low] = P.r.low; P.l.low = -1; }
    while (P.r.high >= 0 && dst[P.r.high] == u) P.r.high = ref[P.r.high];
    if (P.r.high < 0 && P.r.low >= 0) { ref[P.r.low] = P.l.low; P.r.low = -1; }
    S.push_back(P);
  }
  bool after(int v, int k) { // constraints after edge number k of v
    int ei = out[v][k], e = parent[v];
    if (lowpt[ei] < height[v]) { if (k == 0) lowEdge[e] = lowEdge[ei]; else if (!addC(ei, e)) return false; }
    return true;
  }
  bool dfs2(int root) {
    std::vector<int> st{root}, it(n, 0);
    std::vector<char> wait(n, 0);
    while (!st.empty()) {
      int v = st.back();
      if (wait[v]) { wait[v] = 0; if (!after(v, it[v] - 1)) return false; }
      if (it[v] >= (int)out[v].size()) { if (parent[v] >= 0) trim(parent[v]); st.pop_back(); continue; }
      int k = it[v]++, ei = out[v][k], w = dst[ei];
      bottom[ei] = (int)S.size();
      if (parent[w] == ei) { wait[v] = 1; st.push_back(w); }
      else { lowEdge[ei] = ei; CP p; p.r.low = p.r.high = ei; S.push_back(p); if (!after(v, k)) return false; }
    }
    return true;
  }
  bool run() {
    if (n > 2 && m > 3 * n - 6) return false;
    std::vector<int> roots;
    for (int v = 0; v < n; ++v) if (height[v] < 0) { roots.push_back(v); dfs1(v); }
    for (int v = 0; v < n; ++v) std::stable_sort(out[v].begin(), out[v].end(), [&](int a, int b) { return nest[a] < nest[b]; });
    for (int r : roots) { S.clear(); if (!dfs2(r)) return false; }
    return true;
  }
};
}
bool isPlanar(const UG &g) { return LR(g).run(); }
bool isOuterplanar(const UG &g) {
  UG h = g; h.n++; for (int v = 0; v < g.n; ++v) h.e.push_back({v, g.n}); return isPlanar(h);
}
// Repeatedly remove vertices of degree <= 1, and replace degree-2 vertices by an edge (merging parallels).
static UG reduce2(const UG &g) {
  std::vector<std::set<int>> a(g.n); for (auto &x : g.e) { a[x.first].insert(x.second); a[x.second].insert(x.first); }
  std::vector<int> q; for (int v = 0; v < g.n; ++v) if (a[v].size() <= 2) q.push_back(v);
  std::vector<char> gone(g.n, 0);
  while (!q.empty()) {
    int v = q.back(); q.pop_back(); if (gone[v] || a[v].size() > 2) continue;
    gone[v] = 1; std::vector<int> nb(a[v].begin(), a[v].end());
    for (int w : nb) a[w].erase(v);
    a[v].clear();
    if (nb.size() == 2) { a[nb[0]].insert(nb[1]); a[nb[1]].insert(nb[0]); }
    for (int w : nb) if (a[w].size() <= 2) q.push_back(w);
  }
  std::vector<Edge> es; for (int v = 0; v < g.n; ++v) for (int w : a[v]) if (v < w) es.push_back({v, w});
  return compact(es);
}
bool hasK4(const UG &g) { return reduce2(g).m() > 0; }
bool hasK23(const UG &g) {
  for (auto &b : biconnected(g)) if (!isOuterplanar(b) && !(b.n == 4 && b.m() == 6)) return true;
  return false;
}
bool hasK33(const UG &g0) {
  for (auto &b0 : biconnected(g0)) {
    if (isPlanar(b0)) continue;
    UG b = reduce2(b0); // still nonplanar; may have lost biconnectivity only trivially
    if (b.n == 5) { if (b.m() == 10) continue; return isPlanar(b) ? false : true; }
    auto bs = biconnected(b);
    if (bs.size() != 1) { if (hasK33(b)) return true; continue; }
    // look for a separation pair
    Adj a = adjOf(b); bool split = false;
    for (int x = 0; x < b.n && !split; ++x) {
      UG h(b.n); for (auto &e : b.e) if (e.first != x && e.second != x) h.e.push_back(e);
      // cut vertices of h (x isolated): find any y whose removal separates
      std::vector<int> num(b.n, 0), low(b.n, 0), it(b.n, 0), par(b.n, -1); int t = 0, y = -1; Adj ha = adjOf(h);
      int s = x == 0 ? 1 : 0; std::vector<int> st{s}; num[s] = low[s] = ++t; int rootKids = 0;
      while (!st.empty() && y < 0) {
        int v = st.back();
        if (it[v] < (int)ha[v].size()) {
          int w = ha[v][it[v]++];
          if (!num[w]) { par[w] = v; num[w] = low[w] = ++t; st.push_back(w); if (v == s) ++rootKids; }
          else if (w != par[v]) low[v] = std::min(low[v], num[w]);
        } else {
          st.pop_back(); if (!st.empty()) { int u = st.back(); low[u] = std::min(low[u], low[v]); if (u != s && low[v] >= num[u]) y = u; else if (u == s && rootKids > 1) y = s; }
        }
      }
      if (y < 0) continue;
      // split at {x,y}
      UG r(b.n); for (auto &e : b.e) if (e.first != x && e.second != x && e.first != y && e.second != y) r.e.push_back(e);
      std::vector<int> c = componentsOf(r); std::set<int> ids; for (int v = 0; v < b.n; ++v) if (v != x && v != y) ids.insert(c[v]);
      if (ids.size() < 2) continue;
      split = true;
      for (int k : ids) {
        std::vector<Edge> es; es.push_back({x, y});
        for (auto &e : b.e) {
          bool fs = e.first == x || e.first == y, ss = e.second == x || e.second == y;
          if (fs && ss) continue;
          if ((!fs && c[e.first] == k) || (!ss && c[e.second] == k)) es.push_back(e);
        }
        if (hasK33(compact(es))) return true;
      }
    }
    if (!split) return true; // 3-connected, nonplanar, not K5
  }
  return false;
}
std::string badEmbedding(const UG &g, const Adj &rot, bool outer) {
  char buf[200];
  if ((int)rot.size() != g.n) return "vertex count differs";
  // half edges
  std::vector<int> start(g.n + 1, 0); for (int v = 0; v < g.n; ++v) start[v + 1] = start[v] + (int)rot[v].size();
  int H = start[g.n];
  if (H != 2 * g.m()) { snprintf(buf, sizeof buf, "%d half edges for %d edges", H, g.m()); return buf; }
  std::map<Edge,int> pos;
  for (int v = 0; v < g.n; ++v) for (size_t i = 0; i < rot[v].size(); ++i) {
    if (!pos.insert({{v, rot[v][i]}, start[v] + (int)i}).second) { snprintf(buf, sizeof buf, "vertex %d lists neighbour %d twice", v, rot[v][i]); return buf; }
  }
  for (auto &x : g.e) if (!pos.count({x.first, x.second}) || !pos.count({x.second, x.first})) { snprintf(buf, sizeof buf, "edge (%d,%d) is missing", x.first, x.second); return buf; }
  int k; std::vector<int> c = componentsOf(g, &k); std::vector<long> nv(k, 0), ne(k, 0), nf(k, 0);
  for (int v = 0; v < g.n; ++v) nv[c[v]]++;
  for (auto &x : g.e) ne[c[x.first]]++;
  std::vector<char> seen(H, 0); std::vector<char> okOuter(k, 0);
  std::vector<int> mark(g.n, -1); int face = 0;
  for (int v = 0; v < g.n; ++v) for (size_t i = 0; i < rot[v].size(); ++i) if (!seen[start[v] + i]) {
    int a = v, j = (int)i; long distinct = 0;
    while (!seen[start[a] + j]) {
      seen[start[a] + j] = 1; if (mark[a] != face) { mark[a] = face; ++distinct; }
      int b = rot[a][j]; int p = pos[{b, a}] - start[b]; a = b; j = (p + 1) % (int)rot[b].size();
    }
    nf[c[v]]++; ++face; if (distinct == nv[c[v]]) okOuter[c[v]] = 1;
  }
  for (int i = 0; i < k; ++i) {
    if (ne[i] == 0) continue;
    if (nv[i] - ne[i] + nf[i] != 2) { snprintf(buf, sizeof buf, "component %d: V-E+F = %ld-%ld+%ld is not 2", i, nv[i], ne[i], nf[i]); return buf; }
    if (outer && !okOuter[i]) { snprintf(buf, sizeof buf, "component %d has no face containing all its vertices", i); return buf; }
  }
  return "";
}
int subdivisionOf(const UG &h) {
  std::vector<std::vector<std::pair<int,int>>> a(h.n);
  for (int i = 0; i < h.m(); ++i) { if (h.e[i].first == h.e[i].second) return 0; a[h.e[i].first].push_back({h.e[i].second, i}); a[h.e[i].second].push_back({h.e[i].first, i}); }
  std::vector<int> br; std::map<int,int> id;
  for (int v = 0; v < h.n; ++v) { size_t d = a[v].size(); if (d == 1) return 0; if (d >= 3) { id[v] = (int)br.size(); br.push_back(v); } }
  if (br.size() < 2 || br.size() > 6) return 0;
  std::vector<char> used(h.m(), 0); int cnt = 0; std::map<Edge,int> mult;
  for (int b : br) for (auto &x : a[b]) if (!used[x.second]) {
    int v = x.first; used[x.second] = 1; ++cnt; int in = x.second;
    while (!id.count(v)) { auto &nx = a[v][0].second == in ? a[v][1] : a[v][0]; in = nx.second; if (used[in]) return 0; used[in] = 1; ++cnt; v = nx.first; }
    if (v == b) return 0;
    mult[norm(id[b], id[v])]++;
  }
  if (cnt != h.m()) return 0;
  size_t nb = br.size();
  bool simple = true; for (auto &x : mult) if (x.second > 1) simple = false;
  if (nb == 5 && simple && mult.size() == 10) return S_K5;
  if (nb == 4 && simple && mult.size() == 6) return S_K4;
  if (nb == 6 && simple && mult.size() == 9) {
    std::vector<std::set<int>> nbm(6); for (auto &x : mult) { nbm[x.first.first].insert(x.first.second); nbm[x.first.second].insert(x.first.first); }
    for (int i = 0; i < 6; ++i) if (nbm[i].size() != 3) return 0;
    for (int i = 1; i < 6; ++i) if (!nbm[0].count(i) && nbm[i] != nbm[0]) return 0;
    return S_K33;
  }
  // K2,3: two vertices of degree 3 joined by three paths, each with at least one inner vertex
  if (nb == 2 && mult.size() == 1 && mult.begin()->second == 3 && a[br[0]].size() == 3 && a[br[1]].size() == 3) {
    for (auto &x : a[br[0]]) if (x.first == br[1]) return 0;
    return S_K23;
  }
  return 0;
}
UG deleteEdge(const UG &g, int i) { UG h = g; h.e.erase(h.e.begin() + i); return h; }
UG contractEdge(const UG &g, int i) {
  int u = g.e[i].first, v = g.e[i].second; std::set<Edge> s;
  for (auto &x : g.e) { int a = x.first == v ? u : x.first, b = x.second == v ? u : x.second; if (a != b) s.insert(norm(a, b)); }
  UG h(g.n - 1); for (auto &x : s) { int a = x.first > v ? x.first - 1 : x.first, b = x.second > v ? x.second - 1 : x.second; h.e.push_back({a, b}); }
  return h;
}
