#include "lib.h"
#include <unistd.h>
#include <sys/stat.h>
extern "C" {
#include "planarityRelated/graphDrawPlanar.private.h"
}
const char *algName[A_COUNT] = {"planar", "outerplanar", "drawplanar", "K23", "K33", "K4"};
int algFlags(int a) {
  static const int f[] = {EMBEDFLAGS_PLANAR, EMBEDFLAGS_OUTERPLANAR, EMBEDFLAGS_DRAWPLANAR, EMBEDFLAGS_SEARCHFORK23, EMBEDFLAGS_SEARCHFORK33, EMBEDFLAGS_SEARCHFORK4};
  return f[a];
}
int attachFor(graphP g, int a) {
  switch (a) { case A_DRAW: return gp_AttachDrawPlanar(g); case A_K23: return gp_AttachK23Search(g); case A_K33: return gp_AttachK33Search(g); case A_K4: return gp_AttachK4Search(g); }
  return OK;
}
graphP newGraph(Ctx &ctx, int n, int cap) {
  graphP g = gp_New(); CHECK(ctx, g, "harness: gp_New returned NULL");
  if (cap > 0) CHECK(ctx, gp_EnsureArcCapacity(g, cap + (cap & 1)) == OK, "setup: gp_EnsureArcCapacity(%d) before init failed", cap + (cap & 1));
  CHECK(ctx, gp_InitGraph(g, n) == OK, "setup: gp_InitGraph(%d) failed", n);
  return g;
}
void addAll(Ctx &ctx, graphP g, const UG &u) {
  for (auto &e : u.e) { int rc = gp_AddEdge(g, vx(g, e.first), 0, vx(g, e.second), 0); CHECK(ctx, rc == OK, "setup: gp_AddEdge(%d,%d) returned %d", e.first, e.second, rc); }
}
graphP buildGraph(Ctx &ctx, const UG &u, int extra) {
  int need = 2 * u.m() + 2 * extra; graphP g = newGraph(ctx, u.n, need > 6 * u.n || extra ? need : 0);
  addAll(ctx, g, u); return g;
}
Adj ordersX(Ctx &ctx, graphP g, const char *what, bool checkM) {
  Adj a(g->N); long total = 0; long lim = 2L * g->M + 2 * g->N + 16; std::set<int> seen;
  for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) {
    int e = gp_GetFirstArc(g, v), prev = NIL;
    while (gp_IsArc(e)) {
      CHECK(ctx, e >= gp_GetFirstEdge(g) && e < gp_EdgeIndexBound(g), "adjacency: %s: arc %d of vertex %d out of range", what, e, ix(g, v));
      CHECK(ctx, ++total <= lim, "adjacency: %s: list of vertex %d does not end", what, ix(g, v));
      CHECK(ctx, seen.insert(e).second, "adjacency: %s: arc %d occurs twice (vertex %d)", what, e, ix(g, v));
      CHECK(ctx, gp_GetPrevArc(g, e) == prev, "adjacency: %s: backward link of arc %d at vertex %d is wrong", what, e, ix(g, v));
      int w = gp_GetNeighbor(g, e);
      CHECK(ctx, w >= gp_GetFirstVertex(g) && gp_VertexInRange(g, w), "adjacency: %s: vertex %d has neighbour %d out of range", what, ix(g, v), ix(g, w));
      CHECK(ctx, gp_GetNeighbor(g, gp_GetTwinArc(g, e)) == v, "adjacency: %s: twin of arc %d-%d does not lead back", what, ix(g, v), ix(g, w));
      a[ix(g, v)].push_back(ix(g, w)); prev = e; e = gp_GetNextArc(g, e);
    }
    CHECK(ctx, gp_GetLastArc(g, v) == prev, "adjacency: %s: last arc of vertex %d is not the end of its list", what, ix(g, v));
  }
  for (int e : seen) CHECK(ctx, seen.count(gp_GetTwinArc(g, e)), "adjacency: %s: only one arc of an edge (%d) is in a list", what, e);
  if (checkM) CHECK(ctx, total == 2L * g->M, "adjacency: %s: %ld arcs in lists, edge count is %d", what, total, g->M);
  return a;
}
Adj orders(Ctx &ctx, graphP g, const char *what) { return ordersX(ctx, g, what, true); }
UG edgesOf(const Adj &a) { UG g((int)a.size()); for (int v = 0; v < g.n; ++v) for (int w : a[v]) if (v < w) g.e.push_back({v, w}); return g; }
std::string adjText(const Adj &a) { std::string s; for (size_t v = 0; v < a.size(); ++v) { s += std::to_string(v) + ":"; for (int w : a[v]) s += " " + std::to_string(w); s += "; "; } if (s.size() > 1200) s.resize(1200); return s; }
bool sameEdges(const UG &a, const UG &b) { return a.n == b.n && a.m() == b.m() && edgeSet(a) == edgeSet(b); }

void verifyResult(Ctx &ctx, const UG &in, int a, int res, graphP g, const char *what) {
  CHECK(ctx, res == OK || res == NONEMBEDDABLE, "result: %s: %s returned %d", what, algName[a], res);
  CHECK(ctx, g->N == in.n, "labels: %s: order changed to %d", what, g->N);
  bool search = a == A_K23 || a == A_K33 || a == A_K4;
  ctx.label(std::string(algName[a]) + (res == OK ? " OK" : " NONEMBEDDABLE"));
  if ((search && res == OK) || (a == A_DRAW && res == NONEMBEDDABLE)) return; // nothing is promised about the graph content then
  std::string w = std::string(what) + " " + algName[a] + (res == OK ? " OK" : " NONEMBEDDABLE");
  Adj rot = orders(ctx, g, w.c_str()); UG out = edgesOf(rot); std::set<Edge> ie = edgeSet(in), oe = edgeSet(out);
  CHECK(ctx, (int)oe.size() == out.m(), "multi: %s: an edge occurs twice in the output", w.c_str());
  for (auto &e : oe) CHECK(ctx, ie.count(e), "labels: %s: output edge (%d,%d) is not an input edge", w.c_str(), e.first, e.second);
  if (res == OK) {
    CHECK(ctx, out.m() == in.m(), "edges: %s: output has %d of %d edges", w.c_str(), out.m(), in.m());
    std::string b = badEmbedding(in, rot, a == A_OUTER);
    CHECK(ctx, b.empty(), "embedding: %s: %s", w.c_str(), b.c_str());
  } else {
    int want = a == A_PLANAR || a == A_DRAW ? S_K5 | S_K33 : a == A_OUTER ? S_K4 | S_K23 : a == A_K23 ? S_K23 : a == A_K33 ? S_K33 : S_K4;
    int got = subdivisionOf(out);
    CHECK(ctx, got & want, "obstruction: %s: output subgraph (%d edges) is %s", w.c_str(), out.m(), got ? "a subdivision of the wrong graph" : "not a subdivision of a forbidden graph");
    static const char *nm[] = {"K5", "K33", "K4", "K23"};
    for (int i = 0; i < 4; ++i) if (got == 1 << i) ctx.label(std::string("found ") + nm[i]);
  }
}
int runAlg(Ctx &ctx, graphP g, int a, const char *what, bool integrity) {
  GH orig(integrity ? gp_DupGraph(g) : nullptr);
  CHECK(ctx, !integrity || orig.g, "setup: %s: gp_DupGraph failed", what);
  CHECK(ctx, attachFor(g, a) == OK, "setup: %s: attaching extension for %s failed", what, algName[a]);
  int res = gp_Embed(g, algFlags(a));
  CHECK(ctx, res == OK || res == NONEMBEDDABLE, "result: %s: gp_Embed for %s returned %d", what, algName[a], res);
  if (integrity) { int r2 = gp_TestEmbedResultIntegrity(g, orig, res); CHECK(ctx, r2 == res, "integrity: %s: integrity check for %s turned %d into %d", what, algName[a], res, r2); }
  CHECK(ctx, gp_SortVertices(g) == OK, "result: %s: gp_SortVertices after %s failed", what, algName[a]);
  return res;
}
Drawing drawingOf(graphP g) {
  Drawing d; DrawPlanarContext *c = (DrawPlanarContext *)gp_GetExtension(g, DRAWPLANAR_ID);
  if (!c) return d;
  for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) d.v.push_back({c->VI[v].pos, c->VI[v].start, c->VI[v].end});
  for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e += 2) if (gp_EdgeInUse(g, e)) {
    d.e.push_back({c->E[e].pos, c->E[e].start, c->E[e].end}); d.ev.push_back({ix(g, gp_GetNeighbor(g, e)), ix(g, gp_GetNeighbor(g, gp_GetTwinArc(g, e)))});
  }
  d.ok = true; return d;
}
void verifyDrawing(Ctx &ctx, graphP g, const Drawing &d, const char *what) {
  CHECK(ctx, d.ok, "drawing: %s: no drawing data", what);
  int n = (int)d.v.size(), m = (int)d.e.size();
  CHECK(ctx, m == g->M, "drawing: %s: %d edges in use, edge count %d", what, m, g->M);
  verifyDrawingData(ctx, n, m, d, what);
}
void verifyDrawingData(Ctx &ctx, int n, int m, const Drawing &d, const char *what) {
  std::vector<int> rowOf(n, -1); std::vector<char> rowUsed(n, 0), colUsed(m, 0);
  for (int v = 0; v < n; ++v) {
    CHECK(ctx, d.v[v][0] >= 0 && d.v[v][0] < n && !rowUsed[d.v[v][0]], "drawing: %s: vertex %d has row %d (out of range or shared)", what, v, d.v[v][0]);
    rowUsed[d.v[v][0]] = 1;
    if (m) CHECK(ctx, d.v[v][1] >= 0 && d.v[v][1] <= d.v[v][2] && d.v[v][2] < m, "drawing: %s: vertex %d has range %d..%d of %d columns", what, v, d.v[v][1], d.v[v][2], m);
  }
  std::vector<int> vAtRow(n); for (int v = 0; v < n; ++v) vAtRow[d.v[v][0]] = v;
  for (int i = 0; i < m; ++i) {
    auto [u, w] = d.ev[i]; auto &c = d.e[i];
    CHECK(ctx, c[0] >= 0 && c[0] < m && !colUsed[c[0]], "drawing: %s: edge (%d,%d) has column %d (out of range or shared)", what, u, w, c[0]);
    colUsed[c[0]] = 1;
    int lo = std::min(d.v[u][0], d.v[w][0]), hi = std::max(d.v[u][0], d.v[w][0]);
    CHECK(ctx, c[1] == lo && c[2] == hi, "drawing: %s: edge (%d,%d) spans rows %d..%d, its endpoints are in rows %d and %d", what, u, w, c[1], c[2], lo, hi);
    for (int x : {u, w}) CHECK(ctx, d.v[x][1] <= c[0] && c[0] <= d.v[x][2], "drawing: %s: column %d of edge (%d,%d) is outside the range %d..%d of vertex %d", what, c[0], u, w, d.v[x][1], d.v[x][2], x);
    for (int row = lo + 1; row < hi; ++row) { int x = vAtRow[row]; CHECK(ctx, !(d.v[x][1] <= c[0] && c[0] <= d.v[x][2]), "drawing: %s: edge (%d,%d) crosses vertex %d", what, u, w, x); }
  }
}
std::string scratchFile(const char *name) {
  static pid_t made = 0; std::string dir = g_scratch + "/w" + std::to_string(getpid());
  if (made != getpid()) { mkdir(dir.c_str(), 0755); made = getpid(); }
  return dir + "/" + name;
}
std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
void spit(const std::string &p, const std::string &d) { FILE *f = fopen(p.c_str(), "wb"); if (!f) abort(); if (!d.empty() && fwrite(d.data(), 1, d.size(), f) != d.size()) abort(); fclose(f); }
std::string writeStr(Ctx &ctx, graphP g, int mode, int *rc) {
  static char junk[] = "junk"; char *s = junk; int r = gp_WriteToString(g, &s, mode); if (rc) *rc = r; else CHECK(ctx, r == OK, "write: gp_WriteToString(mode %d) returned %d", mode, r);
  if (s == junk) s = nullptr; // what the pointer held before must not matter
  std::string out = s ? s : ""; if (s) free(s); return out;
}
std::string writeFile(Ctx &ctx, graphP g, int mode, int *rc, const char *name) {
  std::string p = scratchFile(name); unlink(p.c_str()); std::vector<char> nm(p.begin(), p.end()); nm.push_back(0);
  int r = gp_Write(g, nm.data(), mode); if (rc) *rc = r; else CHECK(ctx, r == OK, "write: gp_Write(mode %d) returned %d", mode, r);
  return slurp(p);
}
bool expectFree(const UG &g, int a) {
  switch (a) { case A_PLANAR: case A_DRAW: return isPlanar(g); case A_OUTER: return isOuterplanar(g); case A_K23: return !hasK23(g); case A_K33: return !hasK33(g); default: return !hasK4(g); }
}
void labelGraph(Ctx &ctx, const UG &g) {
  ctx.label(g.n <= 10 ? "order<=10" : g.n <= 30 ? "order 11-30" : g.n <= 100 ? "order 31-100" : "order>100");
  int k; componentsOf(g, &k); if (k > 1) ctx.label("disconnected");
}
std::string adjListText(const UG &g, bool zero) {
  int o = zero ? 0 : 1; Adj a = adjOf(g); std::string s = "N=" + std::to_string(g.n) + "\n";
  for (int v = 0; v < g.n; ++v) { s += std::to_string(v + o) + ":"; for (int w : a[v]) s += " " + std::to_string(w + o); s += zero ? " -1\n" : " 0\n"; }
  return s;
}
std::string ledaText(const UG &g) {
  std::string s = "LEDA.GRAPH\nvoid\nvoid\n" + std::to_string(g.n) + "\n"; for (int i = 0; i < g.n; ++i) s += "|{}|\n";
  s += std::to_string(g.m()) + "\n"; for (auto &e : g.e) s += std::to_string(e.first + 1) + " " + std::to_string(e.second + 1) + " 0 |{}|\n"; return s;
}
std::string matrixText(const UG &g) {
  std::set<Edge> s = edgeSet(g); std::string t = std::to_string(g.n) + "\n";
  for (int i = 0; i < g.n; ++i) { t += std::string(i + 1, ' '); for (int j = i + 1; j < g.n; ++j) t += s.count({i, j}) ? '1' : '0'; t += "\n"; } return t;
}
std::string g6Text(const UG &g) {
  std::string s; int n = g.n; if (n <= 62) s += (char)(n + 63); else { s += (char)126; s += (char)(63 + (n >> 12 & 63)); s += (char)(63 + (n >> 6 & 63)); s += (char)(63 + (n & 63)); }
  // bit number j(j-1)/2 + i for the pair i < j, six bits per character, most significant first
  size_t h = s.size(); long long bits = (long long)n * (n - 1) / 2; s.append((size_t)((bits + 5) / 6), (char)63);
  for (auto &e : edgeSet(g)) { long long b = (long long)e.second * (e.second - 1) / 2 + e.first; s[h + b / 6] = (char)(63 + ((s[h + b / 6] - 63) | 1 << (5 - b % 6))); }
  return s + "\n";
}
char *dupStr(const std::string &t) { char *b = (char *)malloc(t.size() + 1); memcpy(b, t.c_str(), t.size() + 1); return b; }
int readStr(graphP g, const std::string &t) { return gp_ReadFromString(g, dupStr(t)); } // the library takes ownership
int readFile(graphP g, const std::string &t, const char *name) { std::string p = scratchFile(name); spit(p, t); std::vector<char> b(p.begin(), p.end()); b.push_back(0); return gp_Read(g, b.data()); }
bool contentDefined(int a, int res) { return res == OK ? a < A_K23 : a != A_DRAW; }
void checkRendition(Ctx &ctx, const UG &in, const Drawing &d, const std::string &t, int off) {
  int N = in.n, M = in.m();
  CHECK(ctx, (int)t.size() == (M + 1) * 2 * N, "rendition: %zu characters for %d vertices and %d edges", t.size(), N, M);
  auto at = [&](int line, int col) { return t[(size_t)line * (M + 1) + col]; };
  for (int l = 0; l < 2 * N; ++l) { CHECK(ctx, at(l, M) == '\n', "rendition: line %d does not end after %d columns", l, M); }
  std::vector<int> vAt(N); for (int v = 0; v < N; ++v) vAt[d.v[v][0]] = v;
  std::vector<std::vector<char>> bar(2 * N, std::vector<char>(M, 0));
  for (int i = 0; i < M; ++i) for (int l = 2 * d.e[i][1] + 1; l < 2 * d.e[i][2]; ++l) bar[l][d.e[i][0]] = 1;
  bool wide = true;
  for (int row = 0; row < N; ++row) {
    int v = vAt[row], s = d.v[v][1], e = d.v[v][2]; std::string lab = std::to_string(v + off);
    std::string run; for (int k = s; k <= e; ++k) run += at(2 * row, k);
    bool narrow = e - s + 1 < (int)lab.size(); if (narrow) { wide = false; ctx.label("narrow label"); }
    for (int k = 0; k < M; ++k) if (k < s || k > e) CHECK(ctx, at(2 * row, k) == (bar[2 * row][k] ? '|' : ' '), "rendition: row of vertex %d shows '%c' in column %d outside its run %d..%d", v + off, at(2 * row, k), k, s, e);
    if (!narrow) {
      size_t p = run.find_first_not_of('-');
      CHECK(ctx, p != std::string::npos && run.compare(p, lab.size(), lab) == 0 && run.find_first_not_of('-', p + lab.size()) == std::string::npos, "rendition: run '%s' does not show vertex label %s", run.c_str(), lab.c_str());
    } else {
      for (char ch : run) CHECK(ctx, ch == '-' || ch == '*' || lab.find(ch) != std::string::npos, "rendition: run '%s' of narrow vertex %s", run.c_str(), lab.c_str());
      CHECK(ctx, run.find(lab[0]) != std::string::npos || run.find('*') != std::string::npos, "rendition: run '%s' of narrow vertex %s shows nothing of its label", run.c_str(), lab.c_str());
    }
    int extra = 0;
    for (int k = 0; k < M; ++k) {
      char ch = at(2 * row + 1, k);
      if (bar[2 * row + 1][k]) { CHECK(ctx, ch == '|', "rendition: '%c' below vertex %d in column %d where an edge runs", ch, v + off, k); continue; }
      if (ch == ' ') continue;
      CHECK(ctx, narrow && k >= s && k <= e && ch == lab.back() && ++extra == 1, "rendition: stray '%c' below vertex %d in column %d", ch, v + off, k);
    }
  }
  if (!wide) return;
  // recover the labelled graph from the text alone
  std::vector<int> lab(N, -1); std::set<int> seen;
  for (int row = 0; row < N; ++row) { std::string num; for (int k = 0; k < M; ++k) { char ch = at(2 * row, k); if (ch >= '0' && ch <= '9') num += ch; } CHECK(ctx, !num.empty(), "rendition: no label in line %d", 2 * row); lab[row] = atoi(num.c_str()) - off; CHECK(ctx, seen.insert(lab[row]).second && lab[row] >= 0 && lab[row] < N, "rendition: label %s appears twice or is out of range", num.c_str()); }
  std::set<Edge> got;
  for (int k = 0; k < M; ++k) { int top = -1, bot = -1; for (int row = 0; row < N; ++row) if (at(2 * row + 1, k) == '|') { if (top < 0) top = row; bot = row + 1; } CHECK(ctx, top >= 0, "rendition: column %d has no edge", k); got.insert(norm(lab[top], lab[bot])); }
  CHECK(ctx, got == edgeSet(in), "rendition: the graph read off the picture is not the embedded graph");
  ctx.label("recovered from text");
}
