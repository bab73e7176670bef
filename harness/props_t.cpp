// Work bounds (E14). The library is compiled with -fsanitize-coverage=trace-pc:
// every edge of the control-flow graph that it runs adds one to g_work; every
// 16 bytes that it clears, copies or scans by a library function add one more.
#include "lib.h"
#include <cstdarg>
extern "C" {
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
}
static volatile long g_workStore; static long g_work;
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() { ++g_work; }
static long g_bytes;
extern "C" { // the library's objects call these (see the Makefile)
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); size_t __real_strlen(const char *); char *__real_strcat(char *, const char *); char *__real_strcpy(char *, const char *); char *__real_strncpy(char *, const char *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { g_bytes += (long)n; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { g_bytes += (long)n; return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { g_bytes += (long)n; return __real_memset(d, c, n); }
int __wrap___isoc99_sscanf(const char *s, const char *f, ...) { g_bytes += (long)__real_strlen(s); va_list a; va_start(a, f); int k = vsscanf(s, f, a); va_end(a); return k; }
char *__real_strchr(const char *, int); char *__real_strstr(const char *, const char *);
char *__wrap_strchr(const char *s, int c) { char *p = __real_strchr(s, c); g_bytes += p ? p - s : (long)__real_strlen(s); return p; }
char *__wrap_strstr(const char *s, const char *t) { char *p = __real_strstr(s, t); g_bytes += p ? p - s : (long)__real_strlen(s); return p; }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); g_bytes += (long)n; return n; }
char *__wrap_strcat(char *d, const char *s) { g_bytes += (long)(__real_strlen(d) + __real_strlen(s)); return __real_strcat(d, s); }
char *__wrap_strcpy(char *d, const char *s) { g_bytes += (long)__real_strlen(s); return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { g_bytes += (long)n; return __real_strncpy(d, s, n); }
}
enum { T_EMBED, T_SORT, T_CHECK, T_COPY, T_WRITE, T_READ, T_GROW, T_HIDE, T_DRAWN, T_G6, T_STAGES };
static const char *stageName[] = {"embedding", "restoring the vertex order", "the integrity check", "copying", "writing an adjacency list", "reading an adjacency list", "adding the edges one by one to a graph of the least capacity", "hiding every vertex and restoring them", "writing and reading a drawing", "writing half as many small .g6 graphs as vertices to a string and reading them"};
struct Work { long w[T_STAGES] = {}; int res = 0; long size = 0; };
static Work measure(Ctx &ctx, const UG &in, int a) {
  mt_fill(-1); Work k; k.size = in.n + in.m(); GH g(buildGraph(ctx, in)); CHECK(ctx, attachFor(g, a) == OK, "setup: attach");
  auto stage = [&](int s, std::function<void()> f) { g_work = 0; long b = mt_bytes(); g_bytes = 0; f(); k.w[s] = g_work + (g_bytes + mt_bytes() - b) / 16; };
  GH orig; stage(T_COPY, [&] { orig.g = gp_DupGraph(g); }); CHECK(ctx, orig.g, "setup: copy");
  stage(T_EMBED, [&] { k.res = gp_Embed(g, algFlags(a)); }); CHECK(ctx, k.res == OK || k.res == NONEMBEDDABLE, "verdict: embedding failed");
  int rc = 0; stage(T_CHECK, [&] { rc = gp_TestEmbedResultIntegrity(g, orig, k.res); }); CHECK(ctx, rc == k.res, "verdict: integrity check");
  stage(T_SORT, [&] { rc = gp_SortVertices(g); }); CHECK(ctx, rc == OK, "setup: sort");
  char *s = nullptr; stage(T_WRITE, [&] { rc = gp_WriteToString(orig, &s, WRITE_ADJLIST); }); CHECK(ctx, rc == OK && s, "setup: write");
  GH h(gp_New()); CHECK(ctx, attachFor(h, A_PLANAR) == OK, "setup"); stage(T_READ, [&] { rc = gp_ReadFromString(h, s); }); CHECK(ctx, rc == OK, "setup: read");
  GH d(gp_New()); CHECK(ctx, d.g && gp_EnsureArcCapacity(d, 2) == OK && gp_InitGraph(d, in.n) == OK, "setup: graph"); CHECK(ctx, gp_GetArcCapacity(d) == 2, "setup: arc capacity %d", gp_GetArcCapacity(d)); rc = OK;
  stage(T_GROW, [&] { for (auto &e : in.e) if (gp_DynamicAddEdge(d, vx(d, e.first), 0, vx(d, e.second), 1) != OK) { rc = NOTOK; break; } }); CHECK(ctx, rc == OK && d->M == in.m(), "setup: dynamic additions");
  stage(T_HIDE, [&] { for (int v = gp_GetFirstVertex(d.g); gp_VertexInRange(d.g, v) && rc == OK; ++v) rc = gp_HideVertex(d, v); if (rc == OK) rc = gp_RestoreVertices(d); }); CHECK(ctx, rc == OK && d->M == in.m(), "setup: hiding and restoring");
  GH q(gp_New()), p(gp_New()); CHECK(ctx, gp_InitGraph(q, 6) == OK && gp_AddEdge(q, vx(q, 1), 0, vx(q, 2), 0) == OK, "setup: graph"); G6WriteIterator *wi = nullptr; G6ReadIterator *ri = nullptr; char *text = nullptr; int cnt = 0; rc = OK;
  stage(T_G6, [&] { rc = allocateG6WriteIterator(&wi, q); if (rc == OK) rc = beginG6WriteIterationToG6String(wi, &text); for (int i = 0; i < in.n / 2 && rc == OK; ++i) rc = writeGraphUsingG6WriteIterator(wi); if (rc == OK) { text = sf_takeTheStr(wi->g6Output); rc = endG6WriteIteration(wi); } if (rc == OK) rc = freeG6WriteIterator(&wi);
    if (rc == OK) rc = allocateG6ReadIterator(&ri, p); if (rc == OK) rc = beginG6ReadIterationFromG6String(ri, text); while (rc == OK && (rc = readGraphUsingG6ReadIterator(ri)) == OK && ri->currGraph) ++cnt; if (rc == OK) rc = freeG6ReadIterator(&ri); });
  CHECK(ctx, rc == OK && cnt == in.n / 2, "setup: .g6 text of %d graphs", cnt);
  if (a == A_DRAW && k.res == OK && in.m()) { GH e(gp_New()); CHECK(ctx, attachFor(e, A_DRAW) == OK, "setup: attach"); std::string path = scratchFile("drawn.txt"); std::vector<char> pn(path.begin(), path.end()); pn.push_back(0);
    stage(T_DRAWN, [&] { rc = gp_Write(g, pn.data(), WRITE_ADJLIST); if (rc == OK) rc = gp_Read(e, pn.data()); }); CHECK(ctx, rc == OK && e->M == in.m(), "setup: drawing data"); }
  return k;
}
static UG chain(Rng &r, int n, std::function<UG()> piece, int sum, bool keep, bool local) { // 1- or 2-sums; local: attach near the last piece
  UG g = piece(); while (g.n < n) { UG b = piece(); int i = local ? g.m() - 1 - r.below(std::min(3, g.m())) : r.below(g.m()), j = r.below(b.m()); Edge x = g.e[i], y = b.e[j]; if (r.chance(1, 2)) std::swap(y.first, y.second);
    if (sum == 2) { int hi = std::max(y.first, y.second), lo = std::min(y.first, y.second); auto m = [&](int v) { return v == y.first ? x.first : v == y.second ? x.second : g.n + v - (v > lo) - (v > hi); }; std::vector<Edge> add; for (int k = 0; k < b.m(); ++k) if (k != j) add.push_back({m(b.e[k].first), m(b.e[k].second)}); if (!keep) { g.e[i] = g.e.back(); g.e.pop_back(); } g.e.insert(g.e.end(), add.begin(), add.end()); g.n += b.n - 2; }
    else { auto m = [&](int v) { return v == y.first ? x.first : g.n + v - (v > y.first); }; for (auto &e : b.e) g.e.push_back({m(e.first), m(e.second)}); g.n += b.n - 1; } }
  return g;
}
static const int FAMILIES = 40;
static UG family(int f, int n, uint64_t seed, std::string &kind) {
  Rng r(seed); UG g;
  switch (f) {
    case 0: kind = "path"; return gPath(n); case 1: kind = "star"; return gRandomTree(r, n, 2); case 2: kind = "cycle"; return gCycle(n); case 3: kind = "wheel"; return gWheel(n); case 4: kind = "random tree"; return gRandomTree(r, n, 0); case 5: kind = "caterpillar"; return gRandomTree(r, n, 3);
    case 6: kind = "square grid"; { int k = std::max(2, (int)__builtin_sqrt(n)); return gGrid(k, k); } case 7: kind = "ladder"; return gGrid(2, n / 2); case 8: kind = "narrow grid"; return gGrid(5, n / 5); case 9: kind = "triangulation"; return gTriangulation(r, n, 0); case 10: kind = "flipped triangulation"; return gTriangulation(r, n, 3 * n);
    case 11: kind = "thinned triangulation"; return gThin(r, gTriangulation(r, n, n), r.range(50, 500)); case 12: kind = "outerplanar"; return gOuter(r, n); case 13: kind = "thinned outerplanar"; return gThin(r, gOuter(r, n), 200); case 14: kind = "two-tree"; return gTwoTree(r, n); case 15: kind = "K2,n"; return gBip(2, n - 2); case 16: kind = "prism"; return gPrism(n / 2);
    case 17: kind = "Moebius ladder"; return gMobius(n / 2); case 18: kind = "K5 blocks"; return chain(r, n, [] { return gComplete(5); }, 1, true, r.chance(1, 2)); case 19: kind = "K5 sums"; return chain(r, n, [] { return gComplete(5); }, 2, false, r.chance(1, 2)); case 20: kind = "K5 sums keeping edges"; return chain(r, n, [] { return gComplete(5); }, 2, true, r.chance(1, 2));
    case 21: kind = "K4 blocks"; return chain(r, n, [] { return gComplete(4); }, 1, true, r.chance(1, 2)); case 22: kind = "K4 sums"; return chain(r, n, [] { return gComplete(4); }, 2, false, r.chance(1, 2)); case 23: kind = "mixed planar sums"; return chain(r, n, [&] { return r.chance(1, 2) ? gWheel(r.range(3, 9)) : gPrism(r.range(3, 6)); }, 2, r.chance(1, 2), r.chance(1, 2)); case 24: kind = "K5 and planar sums"; return chain(r, n, [&] { return r.chance(1, 2) ? gComplete(5) : gWheel(r.range(3, 9)); }, 2, r.chance(1, 2), r.chance(1, 2));
    case 25: kind = "planar plus edge"; return gAddEdges(r, gTriangulation(r, n, n), 1); case 26: kind = "planar plus edges"; return gAddEdges(r, gThin(r, gTriangulation(r, n, n), 200), 20); case 27: kind = "subdivided K5"; return gSubdivide(r, gComplete(5), n - 5); case 28: kind = "subdivided K3,3"; return gSubdivide(r, gBip(3, 3), n - 6); case 29: kind = "K3,n"; return gBip(3, n - 3);
    case 30: kind = "sparse random"; return gGnm(r, n, n); case 31: kind = "random"; return gGnm(r, n, 3 * n - 6); case 32: kind = "dense random"; { int k = std::max(10, (int)__builtin_sqrt(3.0 * n)); return gGnm(r, k, k * (k - 1) / 3); } case 33: kind = "hypercube"; { int d = 3; while ((1 << (d + 1)) <= n) ++d; return gHypercube(d); } case 34: kind = "circulant"; return gCirculant(n, {1, 3}); case 35: kind = "cycles at a vertex"; g = UG(1); while (g.n < n) { int k = r.range(2, 5); int a = g.n; g.n += k; g.e.push_back({0, a}); for (int i = 1; i < k; ++i) g.e.push_back({a + i - 1, a + i}); g.e.push_back({a + k - 1, 0}); } return g;
    case 36: kind = "nested triangles"; { int k = std::max(2, n / 3); g = UG(3 * k); for (int i = 0; i < k; ++i) for (int j = 0; j < 3; ++j) { g.e.push_back({3 * i + j, 3 * i + (j + 1) % 3}); if (i + 1 < k) g.e.push_back({3 * i + j, 3 * i + 3 + j}); } return g; } case 37: kind = "many components"; g = UG(0); while (g.n < n) { UG b = r.chance(1, 2) ? gCycle(r.range(3, 6)) : r.chance(1, 2) ? gComplete(4) : gPath(r.range(1, 4)); for (auto &e : b.e) g.e.push_back({g.n + e.first, g.n + e.second}); g.n += b.n; } return g;
    case 38: kind = "fan with long path"; { int k = n / 2; g = gPath(n); for (int i = 2; i < k; ++i) g.e.push_back({0, i}); return g; } default: kind = "pendant triangulation"; return gPendants(r, gTriangulation(r, n / 2, n / 2), n / 2);
  }
}
static UG relabel(const UG &g, int how, uint64_t seed) { Rng r(seed); UG h(g.n); auto p = how == 0 ? std::vector<int>() : permutation(r, g.n); for (auto &e : g.e) { Edge f = how == 0 ? e : Edge{p[e.first], p[e.second]}; if (how == 2 && r.chance(1, 2)) std::swap(f.first, f.second); h.e.push_back(f); } if (how == 2) r.shuffle(h.e); return h; }
// What one unit of size (a vertex or an edge) may cost is measured on small graphs of the same family in the same build.
struct Unit { double w[T_STAGES] = {}; };
static const int SMALL = 260; static const double SLACK = 2.5;
static Unit unitOf(Ctx &ctx, int f, int a) {
  static std::map<std::pair<int, int>, Unit> cache; auto it = cache.find({f, a}); if (it != cache.end()) return it->second; Unit u;
  for (int s = 0; s < 6; ++s) { std::string kind; UG g = relabel(family(f, SMALL + 17 * s, 1000 + s, kind), s % 3, 2000 + s); Work k = measure(ctx, g, a); for (int t = 0; t < T_STAGES; ++t) u.w[t] = std::max(u.w[t], (double)k.w[t] / k.size); }
  return cache[{f, a}] = u;
}
static Unit floorOf(Ctx &ctx, int a) { // the middle value over all families, so that a family whose small members are decided early is not held to their cost
  static std::map<int, Unit> cache; auto it = cache.find(a); if (it != cache.end()) return it->second; Unit u;
  for (int t = 0; t < T_STAGES; ++t) { std::vector<double> v; for (int f = 0; f < FAMILIES; ++f) v.push_back(unitOf(ctx, f, a).w[t]); std::sort(v.begin(), v.end()); u.w[t] = v[FAMILIES * 3 / 4]; }
  return cache[a] = u;
}
static Reg e14({"E14", "one graph of a named family with at least 2000 vertices that an embedder or search, the integrity check, sorting, copying, writing and reading were all run on, with the work of each stage (branches taken in the library) compared with what the same build needs per vertex and edge on small graphs",
  [](Rng &r, Case &c, bool th) { c.p["family"] = r.below(FAMILIES); c.p["alg"] = r.below(A_COUNT); c.p["n"] = r.range(2000, th ? 40000 : 9000); c.p["how"] = r.below(3); c.p["seed"] = (long)(r.next() >> 20); c.kind = "scaling"; },
  [](const Case &c, Ctx &ctx) {
    int a = c.get("alg"), n = c.get("n"), f = c.get("family") % FAMILIES, how = c.get("how"); if (n < 600) return; std::string kind; UG g = relabel(family(f, n, c.get("seed"), kind), how, c.get("seed") + 1);
    Unit u = unitOf(ctx, f, a), lo = floorOf(ctx, a); Work k = measure(ctx, g, a);
    ctx.label(std::string(algName[a]) + (k.res == OK ? " accepted" : " rejected")); ctx.label(kind); ctx.nontrivial = n >= 2000;
    for (int t = 0; t < T_STAGES; ++t) { if (t == T_CHECK && a == A_DRAW) continue; // this check of a drawing compares every edge with every row; it is a test aid
      double per = (double)k.w[t] / k.size, lim = SLACK * std::max(u.w[t], lo.w[t]);
      CHECK(ctx, per <= lim, "work: %s (%s) took %.1f branches per vertex and edge on a %s with %d vertices and %d edges, against %.1f on small graphs of the same kind (limit %.1f)", stageName[t], algName[a], per, kind.c_str(), g.n, g.m(), std::max(u.w[t], lo.w[t]), lim); }
  }, 600, 6000, 120, false, 40, false, {"n", "seed", "how"}});
