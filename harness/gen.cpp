#include "gen.h"
#include <map>
#include <array>
using std::vector; using std::set;
vector<int> permutation(Rng &r, int n) { vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); return p; }
UG gComplete(int n) { UG g(n); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) g.e.push_back({i, j}); return g; }
UG gBip(int a, int b) { UG g(a + b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) g.e.push_back({i, a + j}); return g; }
UG gPath(int n) { UG g(n); for (int i = 0; i + 1 < n; ++i) g.e.push_back({i, i + 1}); return g; }
UG gCycle(int n) { UG g = gPath(n); if (n >= 3) g.e.push_back({n - 1, 0}); return g; }
UG gWheel(int k) { UG g = gCycle(std::max(3, k)); int h = g.n++; for (int i = 0; i < h; ++i) g.e.push_back({h, i}); return g; }
UG gGrid(int a, int b) { UG g(a * b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) { if (j + 1 < b) g.e.push_back({i * b + j, i * b + j + 1}); if (i + 1 < a) g.e.push_back({i * b + j, (i + 1) * b + j}); } return g; }
UG gCirculant(int n, const vector<int> &ds) { UG g(n); set<Edge> s; for (int i = 0; i < n; ++i) for (int d : ds) { int j = (i + d) % n; if (i != j) s.insert(norm(i, j)); } g.e.assign(s.begin(), s.end()); return g; }
UG gMobius(int k) { vector<int> d{1, k}; return gCirculant(2 * k, d); }
UG gPrism(int k) { k = std::max(3, k); UG g(2 * k); for (int i = 0; i < k; ++i) { g.e.push_back({i, (i + 1) % k}); g.e.push_back({k + i, k + (i + 1) % k}); g.e.push_back({i, k + i}); } return g; }
UG gPetersen() { UG g(10); for (int i = 0; i < 5; ++i) { g.e.push_back({i, (i + 1) % 5}); g.e.push_back({5 + i, 5 + (i + 2) % 5}); g.e.push_back({i, 5 + i}); } return g; }
UG gHypercube(int d) { UG g(1 << d); for (int i = 0; i < (1 << d); ++i) for (int b = 0; b < d; ++b) if (!(i >> b & 1)) g.e.push_back({i, i | 1 << b}); return g; }
UG gGnm(Rng &r, int n, int m) {
  UG g(n); long mx = (long)n * (n - 1) / 2; if (m > mx) m = (int)mx;
  if (n < 2) return g;
  if (m * 3L > mx) { UG k = gComplete(n); r.shuffle(k.e); k.e.resize(m); return k; }
  set<Edge> s; while ((int)s.size() < m) { int a = r.below(n), b = r.below(n); if (a != b) if (s.insert(norm(a, b)).second) g.e.push_back({a, b}); }
  return g;
}
UG gRandomTree(Rng &r, int n, int shape) {
  UG g(n); for (int i = 1; i < n; ++i) { int p; switch (shape) { case 0: p = r.below(i); break; case 1: p = i - 1; break; case 2: p = 0; break; case 3: p = std::max(0, i - 1 - r.below(3)); break; default: p = (i - 1) / 2; } g.e.push_back({p, i}); } return g;
}
UG gTriangulation(Rng &r, int n, int flips) {
  if (n < 3) return gComplete(n);
  vector<std::array<int,3>> f{{0, 1, 2}, {0, 1, 2}}; set<Edge> es{{0, 1}, {0, 2}, {1, 2}};
  bool deep = r.chance(1, 3);
  for (int v = 3; v < n; ++v) {
    int k = deep ? (int)f.size() - 1 - r.below(std::min<int>(3, f.size())) : r.below((int)f.size()); auto t = f[k];
    f[k] = {t[0], t[1], v}; f.push_back({t[0], t[2], v}); f.push_back({t[1], t[2], v});
    for (int x : t) es.insert(norm(x, v));
  }
  if (flips > 0 && n > 4) {
    std::map<Edge, vector<int>> ef; auto put = [&](int i) { for (int a = 0; a < 3; ++a) ef[norm(f[i][a], f[i][(a + 1) % 3])].push_back(i); };
    for (int i = 0; i < (int)f.size(); ++i) put(i);
    for (int k = 0; k < flips; ++k) {
      int i = r.below((int)f.size()), a = r.below(3); int u = f[i][a], v = f[i][(a + 1) % 3], w = f[i][(a + 2) % 3]; Edge e = norm(u, v);
      auto &l = ef[e]; if (l.size() != 2) continue; int j = l[0] == i ? l[1] : l[0]; int x = -1; for (int y : f[j]) if (y != u && y != v) x = y;
      if (x < 0 || x == w || es.count(norm(x, w))) continue;
      es.erase(e); es.insert(norm(x, w)); ef.erase(e);
      auto rm = [&](int p, int q, int fi) { auto &z = ef[norm(p, q)]; z.erase(std::find(z.begin(), z.end(), fi)); };
      rm(v, w, i); rm(w, u, i); rm(v, x, j); rm(x, u, j);
      f[i] = {u, w, x}; f[j] = {v, w, x}; put(i); put(j);
    }
  }
  UG g(n); g.e.assign(es.begin(), es.end()); return g;
}
UG gOuter(Rng &r, int n) { // maximal outerplanar: triangulated polygon
  UG g = gCycle(n); if (n < 4) return g;
  vector<std::pair<int,int>> st{{0, n - 1}};
  int mode = r.below(3);
  while (!st.empty()) { auto [a, b] = st.back(); st.pop_back(); if (b - a < 2) continue; int m = mode == 0 ? a + 1 : mode == 1 ? r.range(a + 1, b - 1) : (r.chance(1, 2) ? a + 1 : b - 1); if (m - a >= 2) g.e.push_back({a, m}); if (b - m >= 2) g.e.push_back({m, b}); st.push_back({a, m}); st.push_back({m, b}); }
  return g;
}
UG gTwoTree(Rng &r, int n) {
  if (n < 2) return UG(n);
  UG g(n); g.e.push_back({0, 1}); for (int v = 2; v < n; ++v) { auto e = r.chance(1, 3) ? g.e[(int)g.e.size() - 1] : g.e[r.below(g.m())]; g.e.push_back({e.first, v}); g.e.push_back({e.second, v}); } return g;
}
UG gUnion(const UG &a, const UG &b) { UG g = a; g.n += b.n; for (auto &e : b.e) g.e.push_back({e.first + a.n, e.second + a.n}); return g; }
UG gSum1(Rng &r, const UG &a, const UG &b) {
  if (a.n == 0) return b; if (b.n == 0) return a;
  int x = r.below(a.n), y = r.below(b.n); UG g = a; auto m = [&](int v) { return v == y ? x : a.n + v - (v > y); };
  g.n += b.n - 1; for (auto &e : b.e) g.e.push_back({m(e.first), m(e.second)}); return g;
}
UG gSum2(Rng &r, const UG &a, const UG &b, bool keep) {
  if (!a.m() || !b.m()) return gSum1(r, a, b);
  int i = r.below(a.m()), j = r.below(b.m()); Edge x = a.e[i], y = b.e[j]; if (r.chance(1, 2)) std::swap(y.first, y.second);
  UG g = a; int hi = std::max(y.first, y.second), lo = std::min(y.first, y.second);
  auto m = [&](int v) { return v == y.first ? x.first : v == y.second ? x.second : a.n + v - (v > lo) - (v > hi); };
  if (!keep) g.e.erase(g.e.begin() + i);
  g.n += b.n - 2; for (int k = 0; k < b.m(); ++k) if (k != j) g.e.push_back({m(b.e[k].first), m(b.e[k].second)}); return g;
}
UG gSubdivide(Rng &r, UG g, int k) {
  bool one = r.chance(1, 4); int fix = g.m() ? r.below(g.m()) : 0;
  for (int i = 0; i < k && g.m(); ++i) { int j = one ? fix : r.below(g.m()); Edge e = g.e[j]; int v = g.n++; g.e[j] = {e.first, v}; g.e.push_back({v, e.second}); } return g;
}
UG gThin(Rng &r, const UG &g, int permille) { UG h(g.n); for (auto &e : g.e) if (r.below(1000) >= permille) h.e.push_back(e); return h; }
UG gAddEdges(Rng &r, UG g, int k) { set<Edge> s = edgeSet(g); for (int t = 0; k > 0 && t < 50 * (k + 1) && g.n > 1; ++t) { int a = r.below(g.n), b = r.below(g.n); if (a != b && s.insert(norm(a, b)).second) { g.e.push_back({a, b}); --k; } } return g; }
UG gPendants(Rng &r, UG g, int k) { for (int i = 0; i < k && g.n; ++i) { g.e.push_back({r.below(g.n), g.n}); g.n++; } return g; }

UG gOverlay(Rng &r, int n, int q, int local) { // complete graphs on q vertices, each sharing two (perhaps not adjacent) vertices with what is there
  UG g = gComplete(q); set<Edge> s = edgeSet(g);
  while (g.n + q - 2 <= n) {
    vector<int> v{r.below(g.n), local == 1 ? std::max(0, g.n - 1 - r.below(2 * q)) : r.below(g.n)}; if (v[0] == v[1]) continue;
    if (local == 2 && !s.count(norm(v[0], v[1])) && r.chance(3, 4)) continue;
    for (int i = 2; i < q; ++i) v.push_back(g.n++);
    for (int i = 0; i < q; ++i) for (int j = i + 1; j < q; ++j) if (s.insert(norm(v[i], v[j])).second) g.e.push_back({v[i], v[j]});
  }
  return g;
}
UG gEars(Rng &r, int n, int odd) { // paths of 1-3 inner vertices between vertex pairs, one in odd of them not adjacent
  UG g = gComplete(2); set<Edge> s = edgeSet(g);
  while (g.n < n) {
    int a = r.below(g.n), b = r.below(g.n), l = r.range(1, 3); if (a == b || (!s.count(norm(a, b)) && !r.chance(1, odd))) continue;
    int p = a; while (l-- && g.n < n) { s.insert(norm(p, g.n)); g.e.push_back({p, g.n}); p = g.n++; }
    if (s.insert(norm(p, b)).second) g.e.push_back({p, b});
    if (s.insert(norm(a, b)).second) g.e.push_back({a, b});
  }
  return g;
}

int pickSize(Rng &r, bool thorough, int cap) {
  int k = r.below(100), n;
  if (k < 22) n = r.range(1, 10); else if (k < 66) n = r.range(8, 26); else if (k < 93) n = r.range(20, 64); else if (k < 99 || !thorough) n = r.range(60, 160); else n = r.range(150, 900);
  return std::min(n, cap);
}
static UG piece(Rng &r, Profile p) {
  switch (p) {
    case P_PLANAR: switch (r.below(9)) { case 0: return gComplete(r.range(2, 4)); case 1: return gWheel(r.range(3, 7)); case 2: return gCycle(r.range(3, 8)); case 3: return gPrism(r.range(3, 6)); case 4: return gBip(2, r.range(2, 6)); case 5: return gTriangulation(r, r.range(4, 12), r.below(20)); case 6: return gGrid(r.range(2, 4), r.range(2, 5)); case 7: return gOuter(r, r.range(3, 9)); default: return gHypercube(3); }
    case P_OUTER: switch (r.below(6)) { case 0: return gComplete(r.range(2, 3)); case 1: return gCycle(r.range(3, 9)); case 2: return gOuter(r, r.range(4, 12)); case 3: return gPath(r.range(2, 6)); default: return gThin(r, gOuter(r, r.range(4, 16)), r.below(400)); }
    case P_BLOCKS: switch (r.below(8)) { case 0: case 1: return gComplete(4); case 2: return gCycle(r.range(3, 7)); case 3: return gOuter(r, r.range(4, 9)); case 4: return gComplete(3); case 5: return gComplete(2); case 6: return gSubdivide(r, gComplete(4), r.below(2)); default: return gBip(2, r.range(2, 3)); }
    case P_SP: switch (r.below(6)) { case 0: return gBip(2, r.range(2, 6)); case 1: return gCycle(r.range(3, 8)); case 2: return gTwoTree(r, r.range(3, 14)); case 3: return gOuter(r, r.range(4, 10)); case 4: return gComplete(3); default: return gThin(r, gTwoTree(r, r.range(4, 16)), r.below(300)); }
    case P_K5SUM: switch (r.below(9)) { case 0: case 1: case 2: case 3: return gComplete(5); case 4: return gComplete(4); case 5: return gTriangulation(r, r.range(5, 9), r.below(12)); case 6: return gWheel(r.range(3, 6)); case 7: return gCycle(r.range(3, 6)); default: return r.chance(1, 4) ? gBip(3, 3) : gPrism(3); }
    case P_NONPLANAR: switch (r.below(12)) { case 0: case 1: return gComplete(5); case 2: case 3: return gBip(3, 3); case 4: return gPetersen(); case 5: return gMobius(r.range(4, 7)); case 6: return gComplete(6); case 7: return gBip(3, r.range(4, 6)); case 8: return gCirculant(r.range(7, 12), {1, 3}); case 9: return gHypercube(4); case 10: return gBip(4, 4); default: return gCirculant(r.range(7, 13), {1, 2}); }
    default: return r.chance(1, 2) ? piece(r, P_PLANAR) : r.chance(1, 2) ? piece(r, P_NONPLANAR) : piece(r, P_SP);
  }
}
static UG compose(Rng &r, Profile p, int n) {
  UG g = piece(r, p); int guard = 0;
  int w2 = p == P_K5SUM || p == P_SP ? 70 : p == P_OUTER || p == P_BLOCKS ? 0 : 40;
  bool conn = r.chance(3, 4);
  while (g.n < n && ++guard < 400) {
    UG b = p == P_NONPLANAR && r.chance(2, 3) ? piece(r, P_PLANAR) : piece(r, p); int k = r.below(100);
    if (k < w2) g = gSum2(r, g, b, r.chance(1, 2));
    else if (k < (conn ? 95 : 75)) g = gSum1(r, g, b);
    else g = gUnion(g, b);
  }
  return g;
}
UG genGraph(Rng &r, Profile p, int n, std::string &kind) {
  UG g;
  switch (p) {
    case P_PLANAR:
      switch (r.below(8)) {
        case 0: kind = "triangulation"; g = gTriangulation(r, n, r.chance(1, 3) ? 0 : 3 * n); break;
        case 1: case 2: kind = "planar-thinned"; g = gThin(r, gTriangulation(r, n, r.below(4) * n), r.range(10, 650)); break;
        case 3: case 4: kind = "planar-composed"; g = compose(r, P_PLANAR, n); break;
        case 5: kind = "planar-subdivided"; g = gTriangulation(r, std::max(3, n / 3), n); g = gSubdivide(r, gThin(r, g, r.below(300)), n - n / 3); break;
        case 6: { kind = "planar-regular"; int k = r.below(8); g = k == 0 ? gWheel(n) : k == 1 ? gGrid(std::max(1, n / 8), 8) : k == 2 ? gPrism(n / 2) : k == 3 ? gBip(2, std::max(1, n - 2)) : k == 4 ? gCycle(n) : k == 5 ? gGrid(2, std::max(1, n / 2)) : k == 6 ? gHypercube(3) : gRandomTree(r, n, r.below(5)); break; }
        default: kind = "planar-pendants"; g = gPendants(r, gThin(r, gTriangulation(r, std::max(1, n / 2), n), r.below(400)), n / 2);
      }
      break;
    case P_NONPLANAR:
      switch (r.below(7)) {
        case 0: case 1: { kind = "planar-plus-edges"; int k = 1 + r.below(3); g = gAddEdges(r, gThin(r, gTriangulation(r, std::max(5, n), r.below(4) * n), r.chance(1, 3) ? 0 : r.range(10, 500)), k); break; }
        case 2: { kind = "kuratowski-subdivided"; g = gSubdivide(r, piece(r, P_NONPLANAR), std::max(0, n - 6)); break; }
        case 3: kind = "nonplanar-composed"; g = compose(r, P_NONPLANAR, n); break;
        case 4: { kind = "kuratowski-in-planar"; UG a = gSubdivide(r, r.chance(1, 2) ? gComplete(5) : gBip(3, 3), r.below(n / 2 + 1)); UG b = gThin(r, gTriangulation(r, std::max(4, n / 2), n), r.below(500)); g = r.chance(1, 3) ? gSum1(r, a, b) : gSum2(r, a, b, r.chance(1, 2)); if (r.chance(1, 2)) g = gSubdivide(r, g, r.below(8)); break; }
        case 5: { kind = "nonplanar-symmetric"; int k = r.below(6); g = k == 0 ? gMobius(std::max(3, n / 2)) : k == 1 ? gCirculant(std::max(7, n), {1, 3}) : k == 2 ? gCirculant(std::max(7, n), {1, 2, 3}) : k == 3 ? gComplete(std::min(std::max(5, n), 14)) : k == 4 ? gBip(3, std::max(3, n - 3)) : gHypercube(n > 40 ? 5 : 4); break; }
        default: kind = "gnm-dense"; g = gGnm(r, std::max(5, n), (int)(n * (1.2 + 0.1 * r.below(20))));
      }
      break;
    case P_OUTER:
      switch (r.below(6)) {
        case 0: kind = "outer-maximal"; g = gOuter(r, n); break;
        case 1: case 2: kind = "outer-thinned"; g = gThin(r, gOuter(r, n), r.range(10, 500)); break;
        case 3: kind = "outer-composed"; g = compose(r, P_OUTER, n); break;
        case 4: kind = "outer-subdivided"; g = gSubdivide(r, gOuter(r, std::max(3, n / 2)), n / 2); break;
        default: kind = "outer-plus-edge"; g = gAddEdges(r, compose(r, P_OUTER, n), 1 + r.below(2));
      }
      break;
    case P_K5SUM: if (r.chance(2, 5)) { // pieces laid over arbitrary vertex pairs: reduced paths nest in one another
        kind = "k5-overlaid"; g = gOverlay(r, std::min(std::max(n, 11), 40), 5, 1 + r.below(4)); if (r.chance(1, 2)) g = gThin(r, g, r.below(60)); if (r.chance(1, 8)) g = gSubdivide(r, g, r.below(6)); break; }
      kind = "k5-sums"; g = compose(r, P_K5SUM, n); if (r.chance(1, 3)) g = gThin(r, g, r.below(80)); if (r.chance(1, 3)) g = gSubdivide(r, g, r.below(10)); if (r.chance(1, 6)) g = gAddEdges(r, g, 1); break;
    case P_BLOCKS: kind = "k4-outer-blocks"; g = compose(r, P_BLOCKS, n); if (r.chance(1, 4)) g = gThin(r, g, r.below(100)); if (r.chance(1, 5)) g = gSubdivide(r, g, r.below(4)); if (r.chance(1, 8)) g = gAddEdges(r, g, 1); break;
    case P_SP: if (r.chance(1, 4)) { // ears over arbitrary vertex pairs, mostly adjacent ones
        kind = "ears"; g = gEars(r, std::min(std::max(n, 8), 40), 1 + r.below(12)); if (r.chance(1, 3)) g = gAddEdges(r, g, 1); break; }
      kind = "series-parallel"; g = r.chance(1, 3) ? gTwoTree(r, n) : compose(r, P_SP, n); if (r.chance(1, 3)) g = gThin(r, g, r.below(300)); if (r.chance(1, 3)) g = gSubdivide(r, g, r.below(10)); if (r.chance(1, 4)) { g = gAddEdges(r, g, 1); kind = "series-parallel-plus-edge"; } break;
    case P_SPARSE: kind = "gnm-sparse"; g = gGnm(r, n, (int)(n * (0.5 + 0.1 * r.below(9)))); break;
    default: { int k = r.below(4); if (k == 0) { kind = "gnm"; g = gGnm(r, n, r.below((int)std::min<long>(4L * n, (long)n * (n - 1) / 2) + 1)); } else if (k == 1) { kind = "tree"; g = gRandomTree(r, n, r.below(5)); } else if (k == 2) { kind = "complete"; g = r.chance(1, 2) ? gComplete(std::min(n, 16)) : gBip(r.range(1, 6), std::max(1, std::min(n, 30) - 5)); } else { kind = "composed-any"; g = compose(r, P_ANY, n); } }
  }
  if (r.chance(1, 8)) g = gPendants(r, g, 1 + r.below(4));
  if (r.chance(1, 10)) g.n += 1 + r.below(3); // isolated vertices
  if (r.chance(1, 12)) { std::string k2; UG h = gGnm(r, r.range(1, 8), r.range(0, 10)); g = gUnion(g, h); }
  return g;
}
UG mixed(Rng &r, bool thorough, std::string &kind, int cap) {
  static const Profile ps[] = {P_ANY, P_ANY, P_PLANAR, P_PLANAR, P_NONPLANAR, P_NONPLANAR, P_OUTER, P_K5SUM, P_BLOCKS, P_SP, P_SPARSE};
  Profile p = ps[r.below(11)]; return genGraph(r, p, pickSize(r, thorough, cap), kind);
}
void present(Rng &r, const UG &g, Case &c) {
  c.p["n"] = g.n; c.items.clear();
  vector<int> p(g.n); for (int i = 0; i < g.n; ++i) p[i] = i;
  int mode = r.below(8); // how labels are assigned
  if (mode >= 3) r.shuffle(p); else if (mode == 2) std::reverse(p.begin(), p.end());
  else if (mode == 1) for (int k = 0; k < 2 && g.n > 1; ++k) std::swap(p[r.below(g.n)], p[r.below(g.n)]);
  vector<Edge> es; for (auto &e : g.e) es.push_back({p[e.first], p[e.second]});
  int om = r.below(8);
  if (om >= 2) { r.shuffle(es); for (auto &e : es) if (r.chance(1, 2)) std::swap(e.first, e.second); }
  else { for (auto &e : es) if (e.first > e.second) std::swap(e.first, e.second); std::sort(es.begin(), es.end()); if (om == 1) std::reverse(es.begin(), es.end()); }
  for (auto &e : es) c.items.push_back({e.first, e.second});
}
UG fromCase(const Case &c) { UG g((int)c.get("n")); for (auto &e : c.items) g.e.push_back({e[0], e[1]}); return g; }
