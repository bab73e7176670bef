// File and string formats (F01-F08).
#include "lib.h"
#include <unistd.h>
extern "C" {
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
#include "planarityRelated/graphDrawPlanar.private.h"
}
static std::string stripNL(std::string s) { if (!s.empty() && s.back() == '\n') s.pop_back(); return s; }
// ------------------------------------------------------------------ F01
// Directed or undirected adjacency-list model: per vertex the ordered out-neighbours.
static std::string listText(const Adj &out, bool zero) {
  int o = zero ? 0 : 1; std::string s = "N=" + std::to_string(out.size()) + "\n";
  for (size_t v = 0; v < out.size(); ++v) { s += std::to_string(v + o) + ":"; for (int w : out[v]) s += " " + std::to_string(w + o); s += zero ? " -1\n" : " 0\n"; }
  return s;
}
static void checkListGraph(Ctx &ctx, graphP g, const Adj &out, bool zero, const char *what) {
  int n = (int)out.size(); CHECK(ctx, g->N == n, "list: %s: order %d, expected %d", what, g->N, n);
  CHECK(ctx, !!(g->internalFlags & FLAGS_ZEROBASEDIO) == zero, "list: %s: index base is not kept", what);
  orders(ctx, g, what);
  std::set<std::pair<int,int>> arcs; for (int v = 0; v < n; ++v) for (int w : out[v]) arcs.insert({v, w});
  for (int v = 0; v < n; ++v) {
    std::vector<int> seq; std::set<int> in;
    for (int e = gp_GetLastArc(g, vx(g, v)); gp_IsArc(e); e = gp_GetPrevArc(g, e)) {
      int w = ix(g, gp_GetNeighbor(g, e)), d = gp_GetDirection(g, e), t = gp_GetDirection(g, gp_GetTwinArc(g, e));
      bool fwd = arcs.count({v, w}), bwd = arcs.count({w, v});
      CHECK(ctx, fwd || bwd, "list: %s: arc %d-%d was not in the text", what, v, w);
      int want = fwd && bwd ? 0 : fwd ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY, wantT = fwd && bwd ? 0 : fwd ? EDGEFLAG_DIRECTION_INONLY : EDGEFLAG_DIRECTION_OUTONLY;
      CHECK(ctx, d == want && t == wantT, "list: %s: arc %d->%d has directions %d/%d, expected %d/%d", what, v, w, d, t, want, wantT);
      if (fwd) seq.push_back(w); else CHECK(ctx, in.insert(w).second, "list: %s: in-arc %d<-%d twice", what, v, w);
    }
    CHECK(ctx, seq == out[v], "list: %s: neighbours of vertex %d are not those of the text, in order", what, v);
    for (auto &a : arcs) if (a.second == v && !arcs.count({v, a.first})) CHECK(ctx, in.count(a.first), "list: %s: in-arc %d<-%d is missing", what, v, a.first);
  }
}
static Reg f01({"F01", "Graphs of 1-200 vertices with any mix of edges and one-way arcs, lists in random order, 0- or 1-based; or graph objects built by calls (also with deletions) and embedded. Oracle: own list model and writer; text->graph->text->graph, string and file. Non-trivial: at least 5 vertices and 5 edges.",
  [](Rng &r, Case &c, bool th) { UG g = mixed(r, th, c.kind, 200); present(r, g, c); int dg = r.below(3); for (auto &e : c.items) e.push_back(dg == 0 ? 0 : r.below(dg == 1 ? 3 : 2)); c.p["zero"] = r.below(2); c.p["seed"] = (long)(r.next() >> 20); c.p["mode"] = r.below(3); c.p["alg"] = r.below(7); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); Rng r(c.get("seed")); bool zero = c.get("zero"); labelGraph(ctx, in); int mode = c.get("mode"); if (in.n < 1) return;
    Adj out(in.n); bool digraph = false;
    if (mode < 2) {
      for (size_t i = 0; i < in.e.size(); ++i) { int d = c.items[i].size() > 2 ? c.items[i][2] : 0; if (d != 2) out[in.e[i].first].push_back(in.e[i].second); if (d != 1) out[in.e[i].second].push_back(in.e[i].first); if (d) digraph = true; }
      for (auto &l : out) r.shuffle(l);
    } else { // graph object made by calls, perhaps embedded
      GH g(newGraph(ctx, in.n, std::max(2 * in.m(), 6 * in.n)));
      for (auto &e : in.e) CHECK(ctx, gp_DynamicAddEdge(g, vx(g, e.first), r.below(2), vx(g, e.second), r.below(2)) == OK, "setup: add");
      if (in.m() && r.chance(1, 2)) for (int k = r.range(1, 1 + in.m() / 4); k > 0; --k) { int e = gp_GetFirstArc(g, vx(g, r.below(in.n))); if (gp_IsArc(e)) gp_DeleteEdge(g, e, 0); }
      int a = c.get("alg"); if (a >= A_K23 && a < A_COUNT && expectFree(edgesOf(orders(ctx, g, "built")), a)) a = A_PLANAR; // content is unspecified then
      if (a < A_COUNT && a != A_DRAW) { runAlg(ctx, g, a, "setup", false); ctx.label("embedded"); }
      Adj o = orders(ctx, g, "built"); for (auto &l : o) std::reverse(l.begin(), l.end());
      CHECK(ctx, !(g->internalFlags & FLAGS_ZEROBASEDIO), "list: graph built by calls is marked zero-based");
      std::string t = writeStr(ctx, g, WRITE_ADJLIST); CHECK(ctx, t == listText(o, false), "list: written text is not the adjacency list of the graph");
      CHECK(ctx, writeFile(ctx, g, WRITE_ADJLIST) == t, "list: file differs from string"); out = o; zero = false;
    }
    std::string T = listText(out, zero); ctx.label(digraph ? "digraph" : "undirected"); ctx.label(zero ? "0-based" : "1-based");
    GH a(gp_New()), b(gp_New()); int rc;
    rc = readStr(a, T); CHECK(ctx, rc == OK, "list: reading from string returned %d", rc); checkListGraph(ctx, a, out, zero, "from string");
    rc = readFile(b, T); CHECK(ctx, rc == OK, "list: reading from file returned %d", rc); checkListGraph(ctx, b, out, zero, "from file");
    CHECK(ctx, orders(ctx, a, "a") == orders(ctx, b, "b"), "list: file and string give different lists");
    CHECK(ctx, writeStr(ctx, a, WRITE_ADJLIST) == T, "list: text written back differs"); CHECK(ctx, writeFile(ctx, b, WRITE_ADJLIST) == T, "list: file written back differs");
    if (r.chance(1, 4)) { GH d(gp_DupGraph(a)); CHECK(ctx, d.g && writeStr(ctx, d, WRITE_ADJLIST) == T, "list: duplicate writes a different text"); }
    if (digraph) { // documented: other modes refuse digraphs
      char *s = nullptr; rc = gp_WriteToString(a, &s, WRITE_ADJMATRIX); if (s) free(s); CHECK(ctx, rc != OK, "list: digraph was written as an adjacency matrix");
    }
    ctx.nontrivial = in.n >= 5 && in.m() >= 5; ctx.evals++;
  }, 40000, 500000, 60, true});

// ------------------------------------------------------------------ F02
static Reg f02({"F02", "Undirected graphs of 1-200 vertices (sparse to complete) written as adjacency matrix to string and file, and well-formed matrix texts (with spacing and line-end variations) read from string and file. Oracle: own upper-triangular writer and edge-set comparison. Non-trivial: at least 4 vertices and one edge.",
  [](Rng &r, Case &c, bool th) { UG g; if (r.chance(1, 5)) { int n = r.range(2, 24); g = gGnm(r, n, r.below(n * (n - 1) / 2 + 1)); c.kind = "dense"; } else g = mixed(r, th, c.kind, 200); present(r, g, c); c.p["var"] = r.below(6); c.p["seed"] = (long)(r.next() >> 20); c.p["ext"] = r.below(5); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); Rng r(c.get("seed")); labelGraph(ctx, in); if (in.n < 1) return;
    GH g(gp_New()); CHECK(ctx, gp_InitGraph(g, in.n) == OK, "setup: init"); for (auto &e : in.e) CHECK(ctx, gp_DynamicAddEdge(g, vx(g, e.first), r.below(2), vx(g, e.second), r.below(2)) == OK, "setup: add");
    std::string T = matrixText(in); CHECK(ctx, writeStr(ctx, g, WRITE_ADJMATRIX) == T, "matrix: written text is not the upper triangular matrix of the graph");
    CHECK(ctx, writeFile(ctx, g, WRITE_ADJMATRIX) == T, "matrix: file differs from string");
    std::string V = T; int var = c.get("var"); std::set<Edge> es = edgeSet(in);
    auto bit = [&](int i, int j) { return es.count({i, j}) ? '1' : '0'; };
    if (var) { V = std::to_string(in.n) + (var == 2 ? "\r\n" : "\n"); for (int i = 0; i < in.n; ++i) { if (var == 4) V += std::string(i, ' '); for (int j = i + 1; j < in.n; ++j) { V += bit(i, j); if (var == 3) V += ' '; if (var == 5 && r.chance(1, 5)) V += r.chance(1, 2) ? '\t' : '\n'; } V += var == 2 ? "\r\n" : "\n"; } }
    bool ext = c.get("ext") && in.m() <= 3 * in.n; // extensions with per-edge data fix the arc capacity
    for (int f = 0; f < 2; ++f) {
      GH h(gp_New()); if (ext) attachFor(h, 1 + (int)c.get("ext"));
      int rc = f ? readFile(h, V) : readStr(h, V); CHECK(ctx, rc == OK, "matrix: reading from %s (variation %d) returned %d", f ? "file" : "string", var, rc);
      CHECK(ctx, h->N == in.n, "matrix: order %d read, expected %d", h->N, in.n); CHECK(ctx, sameEdges(edgesOf(orders(ctx, h, "read")), in), "matrix: graph read from %s (variation %d) differs", f ? "file" : "string", var);
      if (c.get("ext") != 1) CHECK(ctx, writeStr(ctx, h, WRITE_ADJMATRIX) == T, "matrix: text written back differs");
    }
    ctx.label("variation " + std::to_string(var)); ctx.nontrivial = in.n >= 4 && in.m() > 0;
  }, 40000, 500000, 60, true});

// ------------------------------------------------------------------ F03
static UG decodeG6(Ctx &ctx, const std::string &s0) {
  std::string s = stripNL(s0); if (s.rfind(">>graph6<<", 0) == 0) s = s.substr(10);
  size_t k = 0; auto c = [&](size_t i) { CHECK(ctx, i < s.size() && s[i] >= 63 && s[i] <= 126, "g6: byte %zu of the output is missing or invalid", i); return s[i] - 63; };
  int n = c(0); k = 1; if (n == 63) { n = c(1) << 12 | c(2) << 6 | c(3); k = 4; }
  UG g(n); long b = 0; for (int j = 1; j < n; ++j) for (int i = 0; i < j; ++i, ++b) if (c(k + b / 6) >> (5 - b % 6) & 1) g.e.push_back({i, j});
  CHECK(ctx, s.size() == k + (b + 5) / 6, "g6: %zu bytes for order %d", s.size(), n); return g;
}
static Reg f03({"F03", "Simple graphs of orders 1-320, weighted to the 62/63 boundary and to every value of N(N-1)/2 mod 6, plus some of order 500-1500 and (few) sparse ones of order 46342-47000, built by calls with deletions, some with extensions attached or embedded and drawn; oracle: own graph6 encoder written from the format definition. Output to file and string compared byte for byte (an optional final newline aside), valid lines with/without header read back. Non-trivial: at least 4 vertices and one edge.",
  [](Rng &r, Case &c, bool th) {
    UG g; int k = r.below(100), z = r.below(20000); if (z < 2) { int n = r.range(46342, 46400); g = gGnm(r, n, r.below(2000)); c.kind = "huge"; } else if (z < 40) { int n = r.chance(1, 3) ? r.range(4093, 4099) : r.range(4090, 8400); g = gGnm(r, n, r.below(2 * n)); c.kind = "18-bit order"; } else if (k < 8) { g = gGnm(r, r.range(60, 66), r.below(300)); c.kind = "boundary"; } else if (k < 30) { int n = r.range(1, 14); g = gGnm(r, n, r.below(n * (n - 1) / 2 + 1)); c.kind = "small"; }
    else if (k < 36) { int n = r.range(500, th ? 3000 : 1500); g = gGnm(r, n, r.below(2 * n)); c.kind = "large"; } else g = mixed(r, th, c.kind, 320);
    present(r, g, c); c.p["var"] = r.below(8); c.p["del"] = r.below(3); c.p["ext"] = r.below(6); c.p["seed"] = (long)(r.next() >> 20); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); Rng r(c.get("seed")); labelGraph(ctx, in); if (in.n < 1) return;
    GH g(gp_New()); CHECK(ctx, gp_InitGraph(g, in.n) == OK, "setup: init");
    for (auto &e : in.e) CHECK(ctx, gp_DynamicAddEdge(g, vx(g, e.first), r.below(2), vx(g, e.second), r.below(2)) == OK, "setup: add");
    if (c.get("del")) for (int k = r.below(5); k > 0 && !in.e.empty(); --k) { int i = r.below(in.m()); Edge e = in.e[i]; gp_DeleteEdge(g, gp_GetNeighborEdgeRecord(g, vx(g, e.first), vx(g, e.second)), 0); in.e.erase(in.e.begin() + i); if (c.get("del") == 2 && r.chance(1, 2)) { gp_DynamicAddEdge(g, vx(g, e.second), 0, vx(g, e.first), 1); in.e.push_back(e); } }
    int ext = c.get("ext"); if (ext >= 1 && ext <= 3 && in.n <= 200 && in.m() <= 3 * in.n) { // with extension data, which this format has no place for
      bool holes = sp_NonEmpty(g->edgeHoles); int a = ext == 1 && !holes && isPlanar(in) ? A_DRAW : ext == 2 ? A_PLANAR : A_COUNT;
      if (a < A_COUNT && (a != A_PLANAR || isPlanar(in))) { int rc = runAlg(ctx, g, a, "written as g6", false); CHECK(ctx, rc == OK, "verdict: planar graph rejected"); ctx.label("embedded"); if (a == A_PLANAR) CHECK(ctx, gp_AttachDrawPlanar(g) == OK, "setup: attach"); }
      else { CHECK(ctx, gp_AttachDrawPlanar(g) == OK && gp_AttachK33Search(g) == OK, "setup: attach"); ctx.label("extensions attached"); } }
    std::string T = stripNL(g6Text(in)), s = writeStr(ctx, g, WRITE_G6), f = in.n > 40000 ? s : writeFile(ctx, g, WRITE_G6);
    CHECK(ctx, stripNL(s) == ">>graph6<<" + T, "g6: string output differs from the definition");
    CHECK(ctx, f == s, "g6: file output differs from string output");
    int var = c.get("var"); std::string V = (var & 1 ? ">>graph6<<" : "") + T + (var & 2 ? "\n" : var & 4 ? "\r\n" : "");
    for (int k = 0; k < (in.n > 40000 ? 1 : 2); ++k) { GH h(gp_New()); int rc = k ? readFile(h, V) : readStr(h, V); CHECK(ctx, rc == OK, "g6: reading a valid line from %s returned %d (order %d)", k ? "file" : "string", rc, in.n); CHECK(ctx, h->N == in.n && sameEdges(edgesOf(orders(ctx, h, "g6")), in), "g6: reading from %s gives a different graph", k ? "file" : "string"); CHECK(ctx, h->internalFlags & FLAGS_ZEROBASEDIO, "g6: graph read is not zero-based"); }
    ctx.label("N(N-1)/2 mod 6 = " + std::to_string((long)in.n * (in.n - 1) / 2 % 6)); ctx.nontrivial = in.n >= 4 && in.m() > 0; if (in.n >= 4096) ctx.label(in.n > 40000 ? "order > 46341" : "order >= 4096");
  }, 60000, 600000, 600, true});

// ------------------------------------------------------------------ F04
static Reg f04({"F04", "Sequences of 0-30 graphs of one order (1-80), read through the read iterator from string, path or file pointer (with/without header, LF or CRLF, with/without final newline), in half of the cases worked on between the reads (hidden vertices, deletions, sorting, every algorithm), and written through the write iterator to string, path or pointer and read back. Oracle: the generated sequence. Non-trivial: at least 2 graphs.",
  [](Rng &r, Case &c, bool th) {
    int n = r.chance(1, 8) ? r.range(60, 80) : r.chance(1, 12) ? 1 : r.range(2, 24), k = r.chance(1, 6) ? 1 : r.range(2, th ? 60 : 30); c.p["n"] = n; c.p["k"] = k; c.kind = "sequence";
    for (int i = 0; i < k; ++i) { UG g = gGnm(r, n, r.below(std::min(n * (n - 1) / 2, 4 * n) + 1)); for (auto &e : g.e) c.items.push_back({e.first, e.second, i}); }
    c.p["header"] = r.below(2); c.p["eol"] = r.below(2); c.p["fin"] = r.below(2); c.p["rd"] = r.below(3); c.p["wr"] = r.below(3); c.p["use"] = r.chance(1, 2) ? 0 : 1 + r.below(9); },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"), k = c.get("k"); if (n < 1 || k < 1) return; std::vector<UG> gs(k, UG(n)); std::set<std::vector<int>> seen; for (auto &e : c.items) if (e[2] < k && e[0] < n && e[1] < n && e[0] != e[1] && seen.insert({std::min(e[0], e[1]), std::max(e[0], e[1]), e[2]}).second) gs[e[2]].e.push_back({e[0], e[1]});
    auto readAll = [&](const std::string &text, int rd, const char *what) {
      GH g(gp_New()); G6ReadIterator *it = nullptr; CHECK(ctx, allocateG6ReadIterator(&it, g) == OK, "iterator: %s: allocate failed", what); int rc; std::string p = scratchFile("it.g6"); std::vector<char> pn(p.begin(), p.end()); pn.push_back(0);
      if (rd == 0) rc = beginG6ReadIterationFromG6String(it, dupStr(text)); else { spit(p, text); rc = rd == 1 ? beginG6ReadIterationFromG6FilePath(it, pn.data()) : beginG6ReadIterationFromG6FilePointer(it, fopen(p.c_str(), "r")); }
      CHECK(ctx, rc == OK, "iterator: %s: begin (mode %d) returned %d", what, rd, rc); int ord = -1, cnt = -1; CHECK(ctx, getOrderOfGraphToRead(it, &ord) == OK && ord == n, "iterator: %s: order %d reported, expected %d", what, ord, n);
      for (int i = 0; i <= k; ++i) {
        rc = readGraphUsingG6ReadIterator(it); CHECK(ctx, rc == OK, "iterator: %s: reading graph %d of %d returned %d", what, i + 1, k, rc);
        graphP q = nullptr; CHECK(ctx, getPointerToGraphReadIn(it, &q) == OK, "iterator: %s: get pointer", what);
        if (i == k) { CHECK(ctx, !q, "iterator: %s: end of input after %d graphs not reported", what, k); break; }
        CHECK(ctx, q == g.g, "iterator: %s: end reported at graph %d of %d", what, i + 1, k); CHECK(ctx, getNumGraphsRead(it, &cnt) == OK && cnt == i + 1, "iterator: %s: count %d after graph %d", what, cnt, i + 1);
        CHECK(ctx, g->N == n && sameEdges(edgesOf(orders(ctx, g, "iterated")), gs[i]), "iterator: %s: graph %d of %d differs", what, i + 1, k);
        CHECK(ctx, g->internalFlags & FLAGS_ZEROBASEDIO, "iterator: %s: graph %d of %d is not marked 0-based", what, i + 1, k); { std::string t = writeStr(ctx, g, WRITE_ADJLIST); CHECK(ctx, t.find("\n0:") != std::string::npos, "iterator: %s: graph %d of %d is not written 0-based", what, i + 1, k); }
        if (int use = c.get("use")) { // the caller works on the graph before it asks for the next one
          if (use == 1) { gp_HideVertex(g, vx(g, i % n)); gp_RestoreVertices(g); } else if (use == 2) { for (auto &e : gs[i].e) if ((e.first + e.second + i) % 3 == 0) gp_DeleteEdge(g, gp_GetNeighborEdgeRecord(g, vx(g, e.first), vx(g, e.second)), 0); }
          else if (use == 3) CHECK(ctx, gp_CreateDFSTree(g) == OK && gp_SortVertices(g) == OK, "iterator: %s: sorting graph %d", what, i + 1);
          else { int alg = (use + i) % A_COUNT; int er = runAlg(ctx, g, alg, "iterated", i == 0); CHECK(ctx, (er == OK) == expectFree(gs[i], alg), "verdict: %s: %s on graph %d of %d", what, algName[alg], i + 1, k); gp_DetachDrawPlanar(g); gp_DetachK23Search(g); gp_DetachK33Search(g); gp_DetachK4Search(g); /* extensions would keep the graph from growing */ } }
      }
      CHECK(ctx, getNumGraphsRead(it, &cnt) == OK && cnt == k, "iterator: %s: final count %d of %d", what, cnt, k);
      CHECK(ctx, endG6ReadIteration(it) == OK && freeG6ReadIterator(&it) == OK && !it, "iterator: %s: end/free failed", what);
    };
    std::string eol = c.get("eol") ? "\r\n" : "\n", text = c.get("header") ? ">>graph6<<" : ""; for (int i = 0; i < k; ++i) { text += stripNL(g6Text(gs[i])); if (i + 1 < k || c.get("fin")) text += eol; }
    readAll(text, c.get("rd"), "read");
    { // write
      int wr = c.get("wr"); GH g(gp_New()); CHECK(ctx, gp_InitGraph(g, n) == OK, "setup: init"); G6WriteIterator *it = nullptr; CHECK(ctx, allocateG6WriteIterator(&it, g) == OK, "iterator: write: allocate failed"); std::string p = scratchFile("ow.g6"); std::vector<char> pn(p.begin(), p.end()); pn.push_back(0); unlink(p.c_str()); char *s = nullptr; int rc;
      rc = wr == 0 ? beginG6WriteIterationToG6String(it, &s) : wr == 1 ? beginG6WriteIterationToG6FilePath(it, pn.data()) : beginG6WriteIterationToG6FilePointer(it, fopen(p.c_str(), "w")); CHECK(ctx, rc == OK, "iterator: write: begin returned %d", rc);
      int cnt = -1, ord = -1; CHECK(ctx, getOrderOfGraphToWrite(it, &ord) == OK && ord == n, "iterator: write: order %d", ord);
      for (int i = 0; i < k; ++i) {
        gp_ReinitializeGraph(g); for (auto &e : gs[i].e) CHECK(ctx, gp_DynamicAddEdge(g, vx(g, e.first), 0, vx(g, e.second), 0) == OK, "setup: add");
        rc = writeGraphUsingG6WriteIterator(it); CHECK(ctx, rc == OK, "iterator: write: graph %d returned %d", i + 1, rc);
        CHECK(ctx, getNumGraphsWritten(it, &cnt) == OK && cnt == i + 1, "iterator: write: count %d after %d graphs", cnt, i + 1);
      }
      std::string out; if (wr == 0) { s = sf_takeTheStr(it->g6Output); CHECK(ctx, s, "iterator: write: no string"); out = s; free(s); }
      CHECK(ctx, endG6WriteIteration(it) == OK && freeG6WriteIterator(&it) == OK && !it, "iterator: write: end/free failed"); if (wr) out = slurp(p);
      readAll(out, c.get("rd"), "written"); std::string want = ">>graph6<<"; for (int i = 0; i < k; ++i) want += g6Text(gs[i]);
      CHECK(ctx, stripNL(out) == stripNL(want), "iterator: write: output is not the g6 file of the sequence");
    }
    ctx.label(k == 1 ? "one graph" : k < 10 ? "2-9 graphs" : "10+ graphs"); ctx.nontrivial = k >= 2; ctx.evals += k;
  }, 15000, 200000, 60, false, 32, false, {"n"}});

// ------------------------------------------------------------------ F05
static Reg f05({"F05", "One abstract graph written by the harness in adjacency list (0/1-based), matrix, LEDA and g6 (with spacing, line-end, header and label variations), read from file and (where supported) string; then a random chain of up to 6 library write/read steps through the writable formats. Oracle: edge set. Non-trivial: at least 4 vertices, one edge.",
  [](Rng &r, Case &c, bool th) { UG g = mixed(r, th, c.kind, 120); present(r, g, c); c.p["fmt"] = r.below(5); c.p["ws"] = r.below(4); c.p["seed"] = (long)(r.next() >> 20); c.p["chain"] = r.below(7); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); Rng r(c.get("seed")); labelGraph(ctx, in); if (in.n < 1) return; int fmt = c.get("fmt"), ws = c.get("ws"); std::string T; const char *nl = ws & 1 ? "\r\n" : "\n";
    auto sp = [&] { std::string s(1, ' '); if (ws & 2) for (int k = r.below(3); k > 0; --k) s += r.chance(1, 4) ? "\t" : " "; return s; };
    if (fmt < 2) { int o = fmt; Adj a = adjOf(in); for (auto &l : a) r.shuffle(l); T = "N=" + std::string(ws & 2 ? " " : "") + std::to_string(in.n) + nl; for (int v = 0; v < in.n; ++v) { T += std::to_string(v + o) + ":"; for (int w : a[v]) { T += sp() + std::to_string(w + o); if ((ws & 2) && r.chance(1, 20)) T += nl; } T += sp() + (o ? "0" : "-1") + nl; if ((ws & 2) && r.chance(1, 8)) T += nl; } }
    else if (fmt == 2) { std::set<Edge> es = edgeSet(in); T = std::to_string(in.n) + nl; for (int i = 0; i < in.n; ++i) { T += std::string(ws & 2 ? i + 1 : 0, ' '); for (int j = i + 1; j < in.n; ++j) { T += es.count({i, j}) ? '1' : '0'; if ((ws & 2) && r.chance(1, 6)) T += ' '; } T += nl; } }
    else if (fmt == 3) { const char *nt = r.chance(1, 2) ? "string" : "void"; T = std::string("LEDA.GRAPH") + nl + nt + nl + (r.chance(1, 2) ? "int" : "void") + nl + std::to_string(in.n) + nl; for (int i = 0; i < in.n; ++i) T += "|{v" + std::to_string(i) + "}|" + nl; std::vector<Edge> L = in.e; if (ws & 2) for (int q = r.below(4); q > 0; --q) { if (in.m() && r.chance(2, 3)) { Edge e = r.pick(in.e); if (r.chance(1, 2)) std::swap(e.first, e.second); L.insert(L.begin() + r.below((int)L.size() + 1), e); } else { int v = r.below(in.n); L.insert(L.begin() + r.below((int)L.size() + 1), Edge{v, v}); } } // loops and repeated edges are omitted
      T += std::to_string(L.size()) + nl; for (auto &e : L) T += std::to_string(e.first + 1) + sp() + std::to_string(e.second + 1) + " 0 |{}|" + nl; }
    else { T = (ws & 2 ? ">>graph6<<" : "") + stripNL(g6Text(in)) + (r.chance(1, 2) ? nl : ""); }
    auto check = [&](graphP g, const char *what) { CHECK(ctx, g->N == in.n, "format: %s: order %d, expected %d", what, g->N, in.n); CHECK(ctx, sameEdges(edgesOf(orders(ctx, g, what)), in), "format: %s: a different graph", what); };
    GH g(gp_New()); char what[60]; snprintf(what, sizeof what, "format %d ws %d file", fmt, ws); int rc = readFile(g, T); CHECK(ctx, rc == OK, "format: %s: reading returned %d", what, rc); check(g, what);
    if (fmt != 3) { GH h(gp_New()); snprintf(what, sizeof what, "format %d ws %d string", fmt, ws); rc = readStr(h, T); CHECK(ctx, rc == OK, "format: %s: reading returned %d", what, rc); check(h, what); CHECK(ctx, !!(h->internalFlags & FLAGS_ZEROBASEDIO) == !!(g->internalFlags & FLAGS_ZEROBASEDIO), "format: %s: index base differs from file", what); }
    for (int k = c.get("chain"); k > 0; --k) {
      int m[] = {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6}, md = m[r.below(3)]; bool f = r.chance(1, 2); std::string t = f ? writeFile(ctx, g, md) : writeStr(ctx, g, md); GH h(gp_New()); rc = r.chance(1, 2) ? readFile(h, t) : readStr(h, t); snprintf(what, sizeof what, "chain mode %d", md); CHECK(ctx, rc == OK, "format: %s: reading returned %d", what, rc); check(h, what); std::swap(h.g, g.g); ctx.evals++;
    }
    ctx.label("format " + std::to_string(fmt)); ctx.nontrivial = in.n >= 4 && in.m() > 0;
  }, 40000, 500000, 60, true});

// ------------------------------------------------------------------ F06 / F07: hostile and malformed input
struct Api { // two builds of the library (different contents of uninitialised storage)
  graphP (*New)(); void (*Free)(graphP *); int (*Read)(graphP, char *); int (*ReadStr)(graphP, char *); int (*WriteStr)(graphP, char **, int); int (*Embed)(graphP, int); int (*Sort)(graphP);
  int (*AD)(graphP); int (*A23)(graphP); int (*A33)(graphP); int (*A4)(graphP); int (*Init)(graphP, int);
  int (*rAlloc)(G6ReadIterator **, graphP); int (*rPath)(G6ReadIterator *, char *); int (*rStr)(G6ReadIterator *, char *); int (*rNext)(G6ReadIterator *); int (*rEnd)(G6ReadIterator *); int (*rFree)(G6ReadIterator **);
};
#define ALT(X) zz_##X
extern "C" { graphP ALT(gp_New)(); void ALT(gp_Free)(graphP *); int ALT(gp_Read)(graphP, char *); int ALT(gp_ReadFromString)(graphP, char *); int ALT(gp_WriteToString)(graphP, char **, int); int ALT(gp_Embed)(graphP, int); int ALT(gp_SortVertices)(graphP); int ALT(gp_AttachDrawPlanar)(graphP); int ALT(gp_AttachK23Search)(graphP); int ALT(gp_AttachK33Search)(graphP); int ALT(gp_AttachK4Search)(graphP); int ALT(gp_InitGraph)(graphP, int);
int ALT(allocateG6ReadIterator)(G6ReadIterator **, graphP); int ALT(beginG6ReadIterationFromG6FilePath)(G6ReadIterator *, char *); int ALT(beginG6ReadIterationFromG6String)(G6ReadIterator *, char *); int ALT(readGraphUsingG6ReadIterator)(G6ReadIterator *); int ALT(endG6ReadIteration)(G6ReadIterator *); int ALT(freeG6ReadIterator)(G6ReadIterator **); }
#define TABLE(P) {P(gp_New), P(gp_Free), P(gp_Read), P(gp_ReadFromString), P(gp_WriteToString), P(gp_Embed), P(gp_SortVertices), P(gp_AttachDrawPlanar), P(gp_AttachK23Search), P(gp_AttachK33Search), P(gp_AttachK4Search), P(gp_InitGraph), P(allocateG6ReadIterator), P(beginG6ReadIterationFromG6FilePath), P(beginG6ReadIterationFromG6String), P(readGraphUsingG6ReadIterator), P(endG6ReadIteration), P(freeG6ReadIterator)}
#define SELF(X) X
static const Api apis[2] = {TABLE(SELF), TABLE(ALT)};

static std::string numTok(Rng &r, int n) { static const char *odd[] = {"-1", "0", "1", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "65536", "-0", "+1", "1e3", "0x10", "100000", "700000000", "1000000000", "357913941"}; return r.chance(1, 2) ? std::to_string(r.range(-2, n + 3)) : odd[r.below(16)]; }
static std::string validText(Rng &r, const UG &g, int fmt, bool zero) {
  switch (fmt) { case 0: return adjListText(g, zero); case 1: return matrixText(g); case 2: return ledaText(g); case 3: return (r.chance(1, 3) ? ">>graph6<<" : "") + g6Text(g);
    default: { std::string s = r.chance(1, 3) ? ">>graph6<<" : ""; for (int k = r.range(1, 4); k > 0; --k) s += g6Text(gGnm(r, g.n, r.below(std::min(3 * g.n, g.n * (g.n - 1) / 2) + 1))); return s; } }
}
static std::string drawnText(Ctx &, Rng &r, const UG &g, bool zero) { // adjacency list with a plausible drawing section
  std::string s = adjListText(g, zero) + "<DrawPlanar>\n"; int o = zero ? 0 : 1; for (int v = 0; v < g.n; ++v) s += std::to_string(v + o) + ": " + std::to_string(r.below(g.n)) + " " + std::to_string(r.below(g.m() + 1)) + " " + std::to_string(r.below(g.m() + 1)) + "\n";
  for (int e = 0; e < 2 * g.m(); ++e) s += std::to_string(e + 2 * o) + ": " + std::to_string(r.below(g.m() + 1)) + " " + std::to_string(r.below(g.n)) + " " + std::to_string(r.below(g.n)) + "\n"; return s + "</DrawPlanar>\n";
}
static void mutate(Rng &r, std::string &s, int n) {
  for (int k = 1 + (r.chance(1, 2) ? 0 : r.below(5)); k > 0; --k) {
    size_t L = s.size(), i = L ? r.below((int)L) : 0, j = L ? r.below((int)L) : 0; if (i > j) std::swap(i, j);
    switch (r.below(12)) {
      case 0: if (L) s[i] = (char)(1 + r.below(255)); break;
      case 1: s.insert(i, 1, (char)(1 + r.below(255))); break;
      case 2: if (L) s.erase(i, 1 + r.below(4)); break;
      case 3: s.resize(i); break;
      case 4: if (L) s.insert(j, s.substr(i, std::min<size_t>(j - i + 1, 40))); break;
      case 5: if (L) s.erase(i, std::min<size_t>(j - i + 1, 40)); break;
      case 6: case 7: { std::vector<std::pair<size_t,size_t>> tk; for (size_t a = 0; a < L;) if (isdigit((unsigned char)s[a])) { size_t b = a; while (b < L && isdigit((unsigned char)s[b])) ++b; tk.push_back({a, b - a}); a = b; } else ++a; if (!tk.empty()) { auto t = r.chance(1, 4) ? tk[0] : r.pick(tk); s.replace(t.first, t.second, numTok(r, n)); } break; }
      case 8: { static const char *ws[] = {" ", "\n", "\r\n", "\t", "\n\n", " \n ", "\r"}; s.insert(i, ws[r.below(7)]); break; }
      case 9: if (L > 1) s = s.substr(0, L - 1); break;
      case 10: { size_t p = s.find('\n', i), q = p == std::string::npos ? p : s.find('\n', p + 1); if (q != std::string::npos) { if (r.chance(1, 2)) s.erase(p, q - p); else s.insert(p, s.substr(p, q - p)); } break; }
      case 11: { static const char *pre[] = {"N=", "LEDA.GRAPH\n", ">>graph6<<", ">>sparse6<", ">>digraph6", ":", ";", "&", "~", "~~", "~??", "~?@", "5\n", "<DrawPlanar>", "</DrawPlanar>"}; s.insert(r.chance(1, 2) ? 0 : i, pre[r.below(15)]); break; }
    }
  }
}
struct Outcome { int rc = 99; std::string text; int embed = 99; bool wellFormed = false; };
static Outcome readOnce(Ctx &ctx, const Api &a, int fill, const std::string &bytes, int route, int ext, int alg, bool full) {
  Outcome o; mt_fill(fill); mt_cap(24u << 20); GH dummy; graphP g = a.New(); if (!g) return o;
  if (ext == 1) a.AD(g); else if (ext == 2) a.A23(g); else if (ext == 3) a.A33(g); else if (ext == 4) a.A4(g);
  std::string p = scratchFile("hostile"); std::vector<char> pn(p.begin(), p.end()); pn.push_back(0); if (route != 0 && route != 2) spit(p, bytes);
  long count = 0; std::string body = bytes.substr(0, bytes.find('\0'));
  if (route == 0) o.rc = a.ReadStr(g, dupStr(body)); else if (route == 1) o.rc = a.Read(g, pn.data());
  else { // iterator over the whole input
    G6ReadIterator *it = nullptr; o.rc = a.rAlloc(&it, g); if (o.rc == OK) { if (route == 2) { char *s = dupStr(body); o.rc = a.rStr(it, s); if (body.empty()) free(s); } else o.rc = a.rPath(it, pn.data());
      while (o.rc == OK && count < 100000) { o.rc = a.rNext(it); if (o.rc != OK || !it->currGraph) break; ++count; char *t = nullptr; if (a.WriteStr(g, &t, WRITE_ADJLIST) == OK && t) o.text += t; if (t) free(t); }
      o.text += "count " + std::to_string(count) + "\n"; a.rEnd(it); a.rFree(&it); } }
  CHECK(ctx, o.rc == OK || o.rc == NOTOK || o.rc == NONEMBEDDABLE, "hostile: undefined result %d", o.rc);
  if (o.rc == OK && g->N > 0 && full) {
    Adj l = orders(ctx, g, "hostile input"); UG e = edgesOf(l); o.wellFormed = true; std::set<Edge> es = edgeSet(e); bool simple = (int)es.size() == e.m(); for (int v = 0; v < e.n; ++v) for (int w : l[v]) if (v == w) simple = false;
    if (route < 2) { char *t = nullptr; int wr = a.WriteStr(g, &t, WRITE_ADJLIST); if (wr == OK && t) o.text += t; o.text += "w" + std::to_string(wr); if (t) free(t); t = nullptr; wr = a.WriteStr(g, &t, WRITE_ADJMATRIX); if (wr == OK && t) o.text += t; if (t) free(t); }
    if (simple && e.n <= 3000) { if (ext == 0 && alg > 1) { if (alg == 2) a.AD(g); else if (alg == 3) a.A23(g); else if (alg == 4) a.A33(g); else a.A4(g); } else if (ext) alg = ext + 1; o.embed = a.Embed(g, algFlags(alg)); CHECK(ctx, o.embed == OK || o.embed == NONEMBEDDABLE, "hostile: embedding (%s) the graph that was read returned %d", algName[alg], o.embed); CHECK(ctx, a.Sort(g) == OK, "hostile: sort failed"); }
  } else if (o.rc == OK) CHECK(ctx, g->N > 0 || route >= 2, "hostile: success reported but no graph was read");
  a.Free(&g); return o;
}
static Reg f06({"F06", "Valid texts in every format (also multi-graph g6 and lists with a drawing section) with 0-6 structure-aware or byte-level mutations (token replacement by extreme numbers, truncation, duplication, line and prefix edits), and plain random bytes; read from string, file, and g6 iterator, with and without an extension attached. Each input is read by two builds of the library that differ only in the contents of uninitialised stack and heap storage; the outcomes must agree. ASan/UBSan and the allocation ledger watch. Accepted graphs are checked, embedded, written. Non-trivial: mutated, and either accepted or rejected after at least one vertex line or byte of encoding.",
  [](Rng &r, Case &c, bool th) {
    Ctx dummy; int n = r.chance(1, 10) ? r.range(60, 70) : r.range(1, 12); UG g = gGnm(r, n, r.below(std::min(n * (n - 1) / 2, 3 * n) + 1)); int fmt = r.below(7); bool zero = r.chance(1, 2);
    if (fmt == 6) { int L = r.below(40); for (int i = 0; i < L; ++i) c.bytes += (char)(r.chance(1, 2) ? 32 + r.below(96) : r.below(256)); c.kind = "random"; }
    else { c.bytes = fmt == 5 ? drawnText(dummy, r, g, zero) : validText(r, g, fmt, zero); static const char *nm[] = {"list", "matrix", "leda", "g6", "g6s", "drawn"}; c.kind = nm[fmt]; if (!r.chance(1, 12)) { mutate(r, c.bytes, n); c.p["mut"] = 1; } }
    (void)th; c.p["route"] = r.below(4); c.p["ext"] = fmt == 5 ? 1 : r.chance(1, 3) ? r.below(5) : 0; c.p["alg"] = r.below(6); },
  [](const Case &c, Ctx &ctx) {
    int route = c.get("route"), ext = c.get("ext"), alg = c.get("alg");
    Outcome a = readOnce(ctx, apis[0], 0xA7, c.bytes, route, ext, alg, true), b = readOnce(ctx, apis[1], 0x00, c.bytes, route, ext, alg, true);
    CHECK(ctx, a.rc == b.rc && a.text == b.text && a.embed == b.embed, "uninit: the outcome depends on uninitialised storage (results %d and %d)", a.rc, b.rc);
    ctx.label(std::string("route ") + std::to_string(route) + (a.rc == OK ? " accepted" : " rejected")); ctx.nontrivial = c.bytes.size() > 4; ctx.evals += 2;
  }, 150000, 3000000, 20, false, 256, false});

static Reg f07({"F07", "Valid texts damaged in a way that certainly violates the format: g6 with a byte outside 63..126, wrong length, ~~ order prefix, damaged header, dirty padding, a wrong second line; lists with a missing line, wrong vertex number, out-of-range neighbour, missing terminator, non-number; matrices with missing or non-numeric entries; LEDA with missing edge lines, out-of-range ends or numbers of vertices or edges that are negative or no numbers; and truncations of all of them. Read from string, file or iterator. The result must not be OK (for the iterator: the sequence must end with an error).",
  [](Rng &r, Case &c, bool) {
    Ctx dm; int n = r.chance(1, 8) ? r.range(60, 70) : r.range(2, 14); UG g = gGnm(r, n, r.range(1, std::min(n * (n - 1) / 2, 3 * n))); bool zero = r.chance(1, 2); int fmt = r.below(4), kind = r.below(7); std::string s, why; int o = zero ? 0 : 1; bool nul = false;
    auto lines = [](const std::string &t) { std::vector<std::string> v; size_t p = 0; while (p < t.size()) { size_t q = t.find('\n', p); v.push_back(t.substr(p, q - p + 1)); p = q + 1; } return v; };
    auto join = [](const std::vector<std::string> &v) { std::string t; for (auto &x : v) t += x; return t; };
    auto huge = [&] { return (long)r.range(1, 1000) << 32; }; // gone when reduced to an int
    if (fmt == 0) { // g6
      std::string hd = r.chance(1, 2) ? ">>graph6<<" : "", b = stripNL(g6Text(g)); int k = (n > 62) ? 4 : 1, body = (int)b.size() - k; std::string tail = r.chance(1, 2) ? "\n" : "";
      switch (kind) {
        case 0: { int bad[] = {0, 1, 31, 33, 62, 127, 128, 200, 255}; if (r.chance(1, 3)) b[r.below(k)] = (char)bad[r.below(9)], why = "invalid order byte"; else b[k + r.below(body)] = (char)bad[r.below(9)], why = "invalid byte"; break; }
        case 1: b.pop_back(); why = "one byte short"; break;
        case 2: if (r.chance(1, 3)) { b += '\0'; if (r.chance(1, 2)) b += (char)(63 + r.below(64)); nul = true; why = "null character at the end"; } else { b += (char)(63 + r.below(64)); why = "one byte long"; } break;
        case 3: if (k == 1 && r.chance(1, 2)) { b = std::string("~??") + b; why = "order in the wrong length class"; } else { b = "~~" + b; why = "8-byte order prefix"; } break;
        case 4: { hd = ">>graph6<<"; int i = 1 + r.below(9); hd[i] = hd[i] == 'x' ? 'y' : 'x'; why = "damaged header"; break; }
        case 5: { long bits = (long)n * (n - 1) / 2; int pad = (int)((6 - bits % 6) % 6); if (pad) { b.back() = (char)(((b.back() - 63) | 1 << r.below(pad)) + 63); why = "dirty padding"; } else { b.resize(k + r.below(body)); why = "truncated"; } break; }
        default: { // second line wrong (iterator only)
          std::string l2 = stripNL(g6Text(gGnm(r, n, 1))); int w = r.below(5); if (w == 4) l2.insert(r.below((int)l2.size() + 1), 1, '\0'), nul = true; else if (w == 0) l2.pop_back(); else if (w == 1) l2 += '?'; else if (w == 2) l2[k + r.below(body)] = (char)62; else l2[0] = (char)(n > 62 ? 65 : l2[0] == '~' - 1 ? 64 : l2[0] + 1); b += "\n" + l2; why = "second line wrong"; c.p["multi"] = 1; break; }
      }
      s = hd + b + tail; c.p["route"] = c.get("multi") ? 2 + r.below(2) : r.below(4); if (nul) c.p["route"] = c.get("route") | 1;
    } else if (fmt == 1) {
      s = adjListText(g, zero); auto L = lines(s); int v = r.below(n);
      switch (kind) {
        case 0: { int cut = 1 + r.below(n); L.resize(L.size() - cut); s = join(L); why = "missing lines"; break; }
        case 1: { if (r.chance(1, 4)) { size_t p = L[1 + v].find(':'); L[1 + v] = std::to_string(v + o + (r.chance(1, 2) ? huge() : -huge())) + L[1 + v].substr(p); s = join(L); why = "wrong vertex number"; break; } int w = v; while (w == v) w = r.below(n + 2) - 1 + o; L[1 + v] = std::to_string(w == v + o ? w + 1 : w) + L[1 + v].substr(L[1 + v].find(':')); if (v == 0 && w == 0 && o) L[1] = "2" + L[1].substr(L[1].find(':')); if (v == 0 && zero) L[1] = "2" + L[1].substr(L[1].find(':')); s = join(L); why = "wrong vertex number"; break; }
        case 2: { size_t p = L[1 + v].find(':'); L[1 + v].insert(p + 1, " " + (r.chance(1, 3) ? std::to_string(huge() + r.below(n) + o) : std::to_string(n + o + r.below(3)))); s = join(L); why = "neighbour out of range"; break; }
        case 3: { std::string &x = L[n]; size_t p = x.rfind(zero ? " -1" : " 0"); x = x.substr(0, p) + (r.chance(1, 2) ? "\n" : ""); s = join(L); why = "missing terminator"; break; }
        case 4: { size_t p = L[1 + v].find(':'); L[1 + v].insert(p + 1, r.chance(1, 4) ? std::string(" \0", 2) : " x"); s = join(L); why = "not a number"; break; }
        case 5: { L[0] = r.chance(1, 3) ? "N=" + std::to_string(huge() + n) + "\n" : r.chance(1, 2) ? "N=\n" : "N=-3\n"; s = join(L); why = "bad order"; break; }
        default: { size_t last = s.size() - 2; s = s.substr(0, r.below((int)last) + 1); why = "truncated"; while (!s.empty() && s.find(':') == std::string::npos && s.find("N=") == std::string::npos) s = "N="; break; }
      }
      c.p["route"] = r.below(2); if (kind == 6) { std::string full = adjListText(g, zero); size_t last = full.size() - 2; s = full.substr(0, 2 + r.below((int)last - 1)); if (s.size() > last) s.resize(last); }
    } else if (fmt == 2) {
      s = matrixText(g); std::string num = std::to_string(n); size_t lastBit = s.find_last_of("01");
      switch (kind % 3) {
        case 0: { s = s.substr(0, num.size() + 1 + r.below((int)(lastBit - num.size() - 1) + 1)); while (s.size() < num.size() + 1) s += '\n'; why = "truncated"; break; }
        case 1: { std::vector<size_t> bits; for (size_t i = num.size(); i < s.size(); ++i) if (s[i] == '0' || s[i] == '1') bits.push_back(i); s[r.pick(bits)] = "x#.-Z"[r.below(5)]; why = "not a number"; break; }
        default: { if (r.chance(1, 4)) { s = std::to_string(huge() + n) + s.substr(num.size()); why = "order too large"; break; } s = s.substr(0, lastBit) + "\n"; why = "one entry missing"; break; }
      }
      c.p["route"] = r.below(2);
    } else {
      s = ledaText(g); auto L = lines(s);
      static const char *badCount[] = {"-1\n", "-7\n", "x\n", "|{}|\n", "\n"};
      switch (kind) {
        case 0: L.resize(L.size() - 1 - r.below(g.m())); s = join(L); why = "missing edge lines"; break;
        case 3: L[4 + n] = badCount[r.below(5)]; s = join(L); why = "bad number of edges"; break;
        case 4: L[3] = badCount[r.below(5)]; s = join(L); why = "bad order"; break;
        case 1: { size_t i = L.size() - 1 - r.below(g.m()); L[i] = (r.chance(1, 3) ? std::to_string(huge() + 1 + r.below(n)) : std::to_string(n + 1 + r.below(3))) + " 1 0 |{}|\n"; s = join(L); why = "edge end out of range"; break; }
        case 2: { size_t i = L.size() - 1 - r.below(g.m()); L[i] = "|{}|\n"; s = join(L); why = "edge line without numbers"; break; }
        default: L.resize(3 + r.below(n + 1)); s = join(L); why = "truncated"; break;
      }
      c.p["route"] = 1;
    }
    static const char *fn[] = {"g6", "list", "matrix", "leda"}; c.kind = std::string(fn[fmt]) + " " + why; c.bytes = s; },
  [](const Case &c, Ctx &ctx) {
    for (int k = 0; k < 2; ++k) { Outcome a = readOnce(ctx, apis[k], k ? 0 : 0xA7, c.bytes, c.get("route"), 0, 0, false); CHECK(ctx, a.rc != OK, "malformed: %s was accepted (route %ld)", c.kind.c_str(), c.get("route")); }
    ctx.label(c.kind); ctx.nontrivial = true;
  }, 60000, 600000, 20, false, 256, true});

// ------------------------------------------------------------------ F08
static Reg f08({"F08", "Planar graphs (1-120 vertices, at least one edge) read 0-/1-based or built by calls, drawn, written to string and file, read into graphs with and without the drawing extension; oracle: coordinates by vertex and by edge endpoints, rotation, rendition text; reading and writing again reaches a fixed text. Non-trivial: at least 5 vertices and 5 edges.",
  [](Rng &r, Case &c, bool th) { do { UG g = genGraph(r, r.chance(1, 4) ? P_OUTER : P_PLANAR, pickSize(r, th, 120), c.kind); present(r, g, c); } while (c.items.empty() || !isPlanar(fromCase(c))); c.p["base"] = r.below(3); c.p["f"] = r.below(4); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); if (!in.m() || !isPlanar(in)) return; labelGraph(ctx, in); GH g; int base = c.get("base"), f = c.get("f");
    if (base == 2) g.g = buildGraph(ctx, in); else { g.g = gp_New(); CHECK(ctx, readStr(g, adjListText(in, base == 0)) == OK, "setup: read"); }
    CHECK(ctx, runAlg(ctx, g, A_DRAW, "draw") == OK, "verdict: not drawn");
    std::string T = writeStr(ctx, g, WRITE_ADJLIST); CHECK(ctx, writeFile(ctx, g, WRITE_ADJLIST) == T, "drawing file: file differs from string");
    auto render = [&](graphP h) { char *s = nullptr; CHECK(ctx, gp_DrawPlanar_RenderToString(h, &s) == OK && s, "drawing file: rendering failed"); std::string t = s; free(s); return t; };
    std::string R = render(g); auto key = [](const Drawing &d) { std::map<Edge, std::array<int,3>> m; for (size_t i = 0; i < d.e.size(); ++i) m[norm(d.ev[i].first, d.ev[i].second)] = d.e[i]; return m; };
    Drawing d = drawingOf(g); Adj rot = orders(ctx, g, "drawn");
    GH h(gp_New()); CHECK(ctx, gp_AttachDrawPlanar(h) == OK, "setup: attach"); int rc = f & 1 ? readFile(h, T) : readStr(h, T); CHECK(ctx, rc == OK, "drawing file: reading with the extension returned %d", rc);
    CHECK(ctx, orders(ctx, h, "read back") == rot, "drawing file: embedding not restored"); Drawing d2 = drawingOf(h); CHECK(ctx, d2.v == d.v, "drawing file: vertex coordinates not restored");
    CHECK(ctx, key(d2) == key(d), "drawing file: edge coordinates not restored"); CHECK(ctx, render(h) == R, "drawing file: rendition after reading differs"); verifyDrawing(ctx, h, d2, "read back");
    std::string T2 = writeStr(ctx, h, WRITE_ADJLIST); CHECK(ctx, T2.substr(0, T2.find('<')) == T.substr(0, T.find('<')), "drawing file: adjacency lists written again differ");
    GH h2(gp_New()); CHECK(ctx, gp_AttachDrawPlanar(h2) == OK, "setup: attach"); rc = f & 2 ? readFile(h2, T2) : readStr(h2, T2); CHECK(ctx, rc == OK, "drawing file: second reading returned %d", rc); CHECK(ctx, writeStr(ctx, h2, WRITE_ADJLIST) == T2, "drawing file: text is not stable"); CHECK(ctx, render(h2) == R, "drawing file: second rendition differs");
    GH p(gp_New()); rc = f & 2 ? readStr(p, T) : readFile(p, T); CHECK(ctx, rc == OK, "drawing file: reading without the extension returned %d", rc); CHECK(ctx, orders(ctx, p, "plain") == rot, "drawing file: embedding differs without the extension"); CHECK(ctx, writeStr(ctx, p, WRITE_ADJLIST) == T.substr(0, T.find('<')), "drawing file: plain text differs");
    ctx.label(base == 0 ? "0-based" : "1-based"); ctx.nontrivial = in.n >= 5 && in.m() >= 5;
  }, 20000, 250000, 60, true});
