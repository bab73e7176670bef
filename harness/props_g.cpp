// The graph data structure: editing, capacity, hide/contract/identify, copying,
// reuse, extensions, invalid arguments, containers (G01-G08).
#include "sim.h"
extern "C" {
#include "io/strOrFile.h"
#include "io/strbuf.h"
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
}
static int startCap(Rng &r, int n) { // 0: default; else an even number
  switch (r.below(5)) { case 0: return 2; case 1: return 2 * r.range(1, 6); case 2: return 2 * r.range(1, 3 * n + 2); default: return 0; }
}
static int nOf(Rng &r, bool th) { int k = r.below(20); return k == 0 ? 1 : k == 1 ? 2 : k < 15 ? r.range(3, 9) : k < 19 ? r.range(8, 20) : r.range(20, th ? 60 : 40); }

// ------------------------------------------------------------------ G01
static Reg g01({"G01", "Sequences of 1-200 operations on a graph of 1-40 vertices with default or small arc capacity: plain, dynamic and positioned edge addition, deletion, direction changes, capacity requests, queries; after each the whole structure is compared with a model of ordered neighbour lists; at the end up to three edges become pairs of opposite arcs, which are queried and taken away. Non-trivial: at least one deletion followed by an addition and 8 effective edits.",
  [](Rng &r, Case &c, bool th) {
    int n = nOf(r, th); c.kind = "history"; c.p["n"] = n; c.p["cap"] = startCap(r, n); int k = r.range(1, r.chance(1, 4) ? 200 : 60), bias = r.below(3);
    for (int i = 0; i < k; ++i) { int x = r.below(20); c.items.push_back(randomEdit(r, x < 4 ? OP_ADD : x < 7 ? OP_DYN : x < 11 ? OP_INSERT : x < 14 + 2 * bias ? OP_DELETE : x < 17 + bias / 2 ? OP_DIR : x < 18 ? OP_ENSURE : OP_QUERY)); } },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"); if (n < 1) return; GH g(newGraph(ctx, n, c.get("cap"))); Model m(n); compare(ctx, g, m, "new graph"); int dels = 0, after = 0, eff = 0;
    for (size_t i = 0; i < c.items.size(); ++i) {
      if (c.items[i].empty() || c.items[i][0] >= OP_EDIT_COUNT) continue; int m0 = m.m; edit(ctx, g, m, c.items[i], true); char w[60]; snprintf(w, sizeof w, "after operation %zu (kind %d)", i + 1, c.items[i][0]); compare(ctx, g, m, w);
      if (m.m < m0) ++dels; if (m.m > m0 && dels) ++after; eff += m.m != m0;
    }
    for (int v = 0; v < n; ++v) edit(ctx, g, m, {OP_QUERY, v, (v * 7 + 1) % n}, true);
    { // opposite arcs between the same two vertices: u -> v and v -> u as two directed edges
      Adj before = ordersX(ctx, g, "digraph", true); std::vector<Edge> es = m.edges(); std::vector<std::pair<int,int>> undo; int step = 1 + n % 3; std::map<int,int> extra;
      for (size_t i = 0; i < es.size() && undo.size() < 6; i += step) {
        int u = es[i].first, v = es[i].second; if (i & 1) std::swap(u, v); if (2 * g->M + 2 > gp_GetArcCapacity(g)) break;
        int a = gp_GetNeighborEdgeRecord(g, vx(g, u), vx(g, v)), old = gp_GetDirection(g, a); gp_SetDirection(g, a, EDGEFLAG_DIRECTION_OUTONLY);
        CHECK(ctx, gp_IsNeighbor(g, vx(g, u), vx(g, v)) && !gp_IsNeighbor(g, vx(g, v), vx(g, u)), "query: one arc %d->%d: gp_IsNeighbor says %d forth, %d back", u, v, gp_IsNeighbor(g, vx(g, u), vx(g, v)), gp_IsNeighbor(g, vx(g, v), vx(g, u)));
        int end = (int)(i / step) & 1; CHECK(ctx, gp_AddEdge(g, vx(g, v), end, vx(g, u), end) == OK, "model: the arc back cannot be added"); int b = end ? gp_GetLastArc(g, vx(g, v)) : gp_GetFirstArc(g, vx(g, v));
        CHECK(ctx, gp_GetNeighbor(g, b) == vx(g, u) && b != gp_GetTwinArc(g, a), "model: the arc back is not at the end asked for"); gp_SetDirection(g, b, EDGEFLAG_DIRECTION_OUTONLY);
        CHECK(ctx, gp_IsNeighbor(g, vx(g, u), vx(g, v)) && gp_IsNeighbor(g, vx(g, v), vx(g, u)), "query: arcs %d->%d and %d->%d are there, gp_IsNeighbor says %d and %d", u, v, v, u, gp_IsNeighbor(g, vx(g, u), vx(g, v)), gp_IsNeighbor(g, vx(g, v), vx(g, u)));
        int x = gp_GetNeighborEdgeRecord(g, vx(g, u), vx(g, v)); CHECK(ctx, x == a || x == gp_GetTwinArc(g, b), "lookup: edge record of %d-%d is neither of the two", u, v);
        undo.push_back({b, a}); undo.push_back({old, -1}); ++extra[u]; ++extra[v]; ctx.label("opposite arcs");
      }
      for (auto &x : extra) { int w = x.first, want = (int)m.adj[w].size() + x.second, in = 0, out = 0; for (int e = gp_GetFirstArc(g, vx(g, w)); gp_IsArc(e); e = gp_GetNextArc(g, e)) { int f = gp_GetDirection(g, e); in += f != (int)EDGEFLAG_DIRECTION_OUTONLY; out += f != (int)EDGEFLAG_DIRECTION_INONLY; }
        CHECK(ctx, gp_GetVertexDegree(g, vx(g, w)) == want && gp_GetVertexInDegree(g, vx(g, w)) == in && gp_GetVertexOutDegree(g, vx(g, w)) == out, "query: degrees of %d with opposite arcs are %d (in %d, out %d), expected %d (in %d, out %d)", w, gp_GetVertexDegree(g, vx(g, w)), gp_GetVertexInDegree(g, vx(g, w)), gp_GetVertexOutDegree(g, vx(g, w)), want, in, out); }
      for (size_t i = 0; i + 1 < undo.size(); i += 2) { gp_DeleteEdge(g, undo[i].first, 0); gp_SetDirection(g, undo[i].second, undo[i + 1].first); }
      CHECK(ctx, ordersX(ctx, g, "digraph", true) == before, "model: adding and deleting the arcs back changed the lists"); compare(ctx, g, m, "opposite arcs taken away");
    }
    ctx.nontrivial = dels && after && eff >= 8;
  }, 60000, 800000, 60, false, 32, false, {"n"}});

// ------------------------------------------------------------------ G02
// The drawing algorithm documents that it does not support graphs with deleted edges.
static bool holes(graphP g) { return sp_NonEmpty(g->edgeHoles); }
static int extMask(graphP g, int mask) { static const int al[] = {A_DRAW, A_K33, A_K4, A_K23}; for (int i = 0; i < 4; ++i) if (mask >> i & 1) if (attachFor(g, al[i]) != OK) return NOTOK; return OK; }
static Reg g02({"G02", "Graphs of 1-24 vertices with start capacity 2..default, set before or after initialisation, with and without extensions; mixtures of direct requests (even, odd, not positive, around the present one) with dynamic additions up to the complete graph, all through a model; then embedding. A few cases of order about 46400 with more than 3N edges. Non-trivial: the capacity grew at least once.",
  [](Rng &r, Case &c, bool th) {
    if (r.below(12000) == 0) { c.kind = "huge"; c.p["n"] = r.range(46342, 46500); c.p["cap"] = 0; return; }
    int n = r.chance(1, 20) ? 1 : r.range(2, r.chance(1, 3) ? 24 : 9); c.kind = "capacity"; c.p["n"] = n; c.p["cap"] = startCap(r, n); c.p["ext"] = r.chance(1, 4) ? r.below(16) : 0; c.p["full"] = r.below(2); c.p["seed"] = (long)(r.next() >> 20);
    int k = r.range(0, 50); for (int i = 0; i < k; ++i) { int x = r.below(10); c.items.push_back(randomEdit(r, x < 4 ? OP_DYN : x < 7 ? OP_ENSURE : x < 8 ? OP_ADD : x < 9 ? OP_DELETE : OP_INSERT)); } },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"); if (n < 1) return;
    if (n > 40000) { // more edges than the default capacity
      GH g(newGraph(ctx, n)); int cap0 = gp_GetArcCapacity(g); long M = 0;
      for (int d = 1; d <= 4; ++d) for (int v = 0; v + d < n && M < cap0 / 2 + 10; ++v, ++M) { int rc = gp_DynamicAddEdge(g, vx(g, v), 1, vx(g, v + d), 1); CHECK(ctx, rc == OK, "capacity: adding edge number %ld of a graph of order %d dynamically returned %d (capacity %d)", M + 1, n, rc, gp_GetArcCapacity(g)); }
      CHECK(ctx, g->M == M, "capacity: %d edges after adding %ld", g->M, M); ctx.label("order > 46341"); ctx.nontrivial = true; return;
    }
    Rng r(c.get("seed")); int cap = c.get("cap"), mask = c.get("ext"); GH g(gp_New()); int want = cap > 0 ? cap + (cap & 1) : 6 * n;
    if (cap > 0) { CHECK(ctx, gp_EnsureArcCapacity(g, -2) == NOTOK && gp_EnsureArcCapacity(g, 3) == NOTOK && gp_EnsureArcCapacity(g, 0) == NOTOK, "capacity: an invalid request before initialisation was accepted"); CHECK(ctx, gp_EnsureArcCapacity(g, want) == OK, "capacity: request before initialisation failed"); }
    CHECK(ctx, gp_InitGraph(g, n) == OK && extMask(g, mask) == OK, "setup: init");
    CHECK(ctx, gp_GetArcCapacity(g) >= want, "capacity: %d after asking for %d", gp_GetArcCapacity(g), want);
    if (!cap) CHECK(ctx, gp_GetArcCapacity(g) >= 6 * n, "capacity: the default is %d for order %d", gp_GetArcCapacity(g), n);
    Model m(n); bool growth = !(mask & 7); int cap0 = gp_GetArcCapacity(g);
    for (auto &o : c.items) if (!o.empty() && o[0] < OP_EDIT_COUNT) { edit(ctx, g, m, o, growth); compare(ctx, g, m, "capacity history"); }
    if (c.get("full")) { // to the complete graph
      std::vector<Edge> es; for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) if (!m.has(u, v)) es.push_back({u, v}); r.shuffle(es);
      for (auto &e : es) edit(ctx, g, m, {OP_DYN, e.first, e.second, r.below(2), r.below(2)}, growth);
      compare(ctx, g, m, "complete graph"); if (growth) { CHECK(ctx, m.m == n * (n - 1) / 2, "capacity: only %d edges", m.m); ctx.label("complete graph reached"); }
    }
    if (growth) { // exactly as many edges as reported fit
      int cp = gp_GetArcCapacity(g), add = 0; if (cp / 2 <= n * (n - 1) / 2) { for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) if (!m.has(u, v)) { edit(ctx, g, m, {OP_ADD, u, v, 0, 1}, growth); ++add; } compare(ctx, g, m, "filled to capacity"); if (add) ctx.label("filled to capacity"); }
    }
    bool grew = gp_GetArcCapacity(g) > cap0; UG in = edgesOf(m.adj); int a = r.below(2); if (mask & 1 && r.chance(1, 2) && !holes(g)) a = A_DRAW;
    bool directed = !m.dir.empty(); if (!directed) { int res = runAlg(ctx, g, a, "grown"); verifyResult(ctx, in, a, res, g, "grown"); CHECK(ctx, (res == OK) == expectFree(in, a), "verdict: %s on a grown graph says %d", algName[a], res); }
    ctx.label(grew ? "grew" : "did not grow"); ctx.nontrivial = grew;
  }, 60000, 600000, 120, false, 32, false, {"n", "cap", "ext"}});

// ------------------------------------------------------------------ G03
static Reg g03({"G03", "A random graph of 1-40 vertices (built by up to 80 edits, capacity default or exact, any extensions attached), then 1-3 rounds of up to 14 edge hidings, vertex hidings, contractions and identifications interleaved with single restores, then complete restoration by single restores or in one call; every state is compared with the model. Non-trivial: at least three vertex operations on a graph with at least 5 edges.",
  [](Rng &r, Case &c, bool th) {
    int n = nOf(r, th); c.kind = "hide"; c.p["n"] = n; c.p["cap"] = r.chance(1, 3) ? 2 : 0; c.p["ext"] = r.chance(1, 3) ? r.below(16) : 0;
    for (int round = r.range(1, 3); round > 0; --round) {
      for (int k = r.range(0, r.chance(1, 2) ? 80 : 20); k > 0; --k) { int x = r.below(12); c.items.push_back(randomEdit(r, x < 8 ? OP_DYN : x < 9 ? OP_INSERT : x < 10 ? OP_DIR : OP_DELETE)); }
      bool vertexOnly = r.chance(1, 2); int k = r.range(1, r.chance(1, 4) ? 40 : 14);
      for (int i = 0; i < k; ++i) { int x = r.below(20); c.items.push_back(randomEdit(r, x < 5 ? (vertexOnly && i > 2 ? OP_HIDE_V : OP_HIDE_E) : x < 8 ? OP_HIDE_V : x < 12 ? OP_CONTRACT : x < 18 ? OP_IDENTIFY : OP_RESTORE)); }
      c.items.push_back({OP_RESTORE_ALL});
    } },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"), mask = c.get("ext"); if (n < 1) return; GH g(newGraph(ctx, n, mask & 7 ? 0 : c.get("cap"))); CHECK(ctx, extMask(g, mask) == OK, "setup: attach"); Model m(n); HideSim h; int vops = 0, big = 0;
    for (auto &o : c.items) {
      if (o.empty()) continue; if (o[0] >= OP_HIDE_E) { size_t k = h.st.size(); hideOp(ctx, g, m, h, o); if (h.st.size() > k && h.st.back().kind != OP_HIDE_E) { ++vops; if (m.m >= 5) big = 1; } }
      else if (o[0] < OP_EDIT_COUNT && h.st.empty()) edit(ctx, g, m, o, !(mask & 7));
    }
    hideOp(ctx, g, m, h, {OP_RESTORE_ALL}); compare(ctx, g, m, "after complete restoration");
    UG in = edgesOf(m.adj); if (m.dir.empty()) { int res = runAlg(ctx, g, A_PLANAR, "restored"); verifyResult(ctx, in, A_PLANAR, res, g, "restored"); }
    ctx.nontrivial = vops >= 3 && big;
  }, 60000, 800000, 60, false, 32, false, {"n"}});

// ------------------------------------------------------------------ program on library state (G04, G05)
// One operation whose arguments are derived from the state of the graph itself, so that it can be
// applied to two graphs in the same state; returns a text of everything observable.
// ran: an embedding algorithm ran, or the graph was edited after its DFS tree was made; running an
// algorithm that makes a DFS tree on the same object then needs a reinitialised graph.
struct Prog { bool ran = false, dirtyVisited = false, undefinedContent = false, embedded = false; std::vector<int> ext; HideSim h; };
enum { PR_EMBED = 20, PR_DFS, PR_SORT2, PR_LOW, PR_READ, PR_WRITE, PR_REINIT, PR_ATTACH, PR_DETACH, PR_INTEGRITY, PR_FILL, PR_SELFDUP, PR_END };
static const int extAlg[] = {A_DRAW, A_K33, A_K4, A_K23};
static int &extId(int i) { static int *p[] = {&DRAWPLANAR_ID, &K33SEARCH_ID, &K4SEARCH_ID, &K23SEARCH_ID}; return *p[i]; }
static std::string progOp(Ctx &ctx, graphP g, Prog &p, const Op &op, const char *who) {
  auto arg = [&](size_t i) { return i < op.size() ? std::abs(op[i]) : 0; }; if (op.empty()) return ""; int n = g->N; std::string out; char b[200];
  auto growth = [&] { for (int e : p.ext) if (e < 3) return false; return true; };
  auto fresh = [&] { gp_ReinitializeGraph(g); p.ran = p.dirtyVisited = p.undefinedContent = p.embedded = false; };
  auto rebuild = [&] { Model m = modelOf(ctx, g, who); fresh(); for (auto &e : m.edges()) CHECK(ctx, gp_AddEdge(g, vx(g, e.first), 1, vx(g, e.second), 1) == OK, "setup: %s: refilling after reinitialisation failed", who); };
  if (p.undefinedContent && op[0] != PR_ATTACH && op[0] != PR_DETACH) fresh();
  if (op[0] < OP_EDIT_COUNT || op[0] == PR_FILL || (op[0] >= OP_HIDE_E && op[0] <= OP_RESTORE_ALL)) p.ran |= p.dirtyVisited;
  if (op[0] == PR_DFS || op[0] == PR_LOW || op[0] == PR_SORT2) if (p.ran) rebuild();
  if (op[0] < OP_EDIT_COUNT) { Model m = modelOf(ctx, g, who); edit(ctx, g, m, op, growth()); compare(ctx, g, m, who); }
  else if (op[0] >= OP_HIDE_E && op[0] <= OP_RESTORE_ALL) { // a little nested block: operations, then complete restoration
    if (p.dirtyVisited) fresh(); Model m = modelOf(ctx, g, who); HideSim h; Rng r(arg(1)); for (int k = 0; k < 4; ++k) hideOp(ctx, g, m, h, randomEdit(r, OP_HIDE_E + r.below(4))); out += snapshot(ctx, g, who); hideOp(ctx, g, m, h, {OP_RESTORE_ALL}); }
  else switch (op[0]) {
    case PR_EMBED: {
      if (p.ran) rebuild(); Model m = modelOf(ctx, g, who); if (!m.dir.empty()) { fresh(); break; } UG in = edgesOf(m.adj); int a = arg(1) % A_COUNT, x = -1; for (int i = 0; i < 4; ++i) if (extAlg[i] == a) x = i;
      if (x >= 0 && std::find(p.ext.begin(), p.ext.end(), x) == p.ext.end()) a = p.ext.empty() || arg(3) % 4 == 0 ? arg(1) & 1 : extAlg[p.ext[arg(1) % p.ext.size()]]; if (a == A_DRAW && holes(g)) a = A_PLANAR;
      int res = runAlg(ctx, g, a, who, arg(2) & 1); verifyResult(ctx, in, a, res, g, who); CHECK(ctx, (res == OK) == expectFree(in, a), "verdict: %s: %s says %d", who, algName[a], res);
      p.dirtyVisited = p.ran = true; if (!contentDefined(a, res)) p.undefinedContent = true; else { p.embedded = res == OK && (a == A_PLANAR || a == A_DRAW); } snprintf(b, sizeof b, "embed %s %d\n", algName[a], res); out += b; ctx.label("embed"); break; }
    case PR_DFS: CHECK(ctx, gp_CreateDFSTree(g) == OK, "result: %s: gp_CreateDFSTree failed", who); p.dirtyVisited = true; break;
    case PR_SORT2: CHECK(ctx, gp_SortVertices(g) == OK, "result: %s: sort failed", who); out += snapshot(ctx, g, who); CHECK(ctx, gp_SortVertices(g) == OK, "result: %s: sort failed", who); p.dirtyVisited = true; break;
    case PR_LOW: CHECK(ctx, gp_LowpointAndLeastAncestor(g) == OK, "result: %s: lowpoint failed", who); for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) { snprintf(b, sizeof b, "%d,%d ", gp_GetVertexLowpoint(g, v), gp_GetVertexLeastAncestor(g, v)); out += b; } CHECK(ctx, gp_SortVertices(g) == OK, "result: sort failed"); p.dirtyVisited = true; break;
    case PR_READ: { Rng r(arg(1)); UG u = gGnm(r, n, r.below(std::min(n * (n - 1) / 2, growth() ? 3 * n : gp_GetArcCapacity(g) / 2) + 1)); std::string t = g6Text(u); /* the other formats refuse an initialised graph */ int rc = arg(4) & 1 ? readFile(g, t) : readStr(g, t); CHECK(ctx, rc == OK, "read: %s: reading into the used graph returned %d", who, rc);
      CHECK(ctx, sameEdges(edgesOf(orders(ctx, g, who)), u), "read: %s: a different graph was read", who); p.ran = p.dirtyVisited = p.embedded = false; ctx.label("read"); break; }
    case PR_WRITE: { int md[] = {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6}, mode = md[arg(1) % 3], rc; Model m = modelOf(ctx, g, who); if (!m.dir.empty()) mode = WRITE_ADJLIST; out += writeStr(ctx, g, mode, &rc); break; }
    case PR_REINIT: fresh(); break;
    case PR_ATTACH: { int x = arg(1) % 4; int rc = attachFor(g, extAlg[x]); CHECK(ctx, rc == OK, "attach: %s: attaching %s returned %d", who, algName[extAlg[x]], rc); if (std::find(p.ext.begin(), p.ext.end(), x) == p.ext.end()) p.ext.push_back(x); break; }
    case PR_DETACH: { int x = arg(1) % 4; if (!extId(x)) break; int rc = gp_RemoveExtension(g, extId(x)); CHECK(ctx, rc == OK, "detach: %s: detaching %s returned %d", who, algName[extAlg[x]], rc); p.ext.erase(std::remove(p.ext.begin(), p.ext.end(), x), p.ext.end()); break; }
    case PR_FILL: { Rng r(arg(1)); Model m = modelOf(ctx, g, who); for (int k = r.below(5 * n + 2); k > 0; --k) edit(ctx, g, m, randomEdit(r, growth() ? OP_DYN : OP_ADD), growth()); compare(ctx, g, m, who); break; }
  }
  int id[4] = {DRAWPLANAR_ID, K33SEARCH_ID, K4SEARCH_ID, K23SEARCH_ID};
  for (int i = 0; i < 4; ++i) { bool has = std::find(p.ext.begin(), p.ext.end(), i) != p.ext.end(); CHECK(ctx, !!gp_FindExtension(g, id[i], NULL) == has, "extension: %s: %s is %s", who, algName[extAlg[i]], has ? "not found though attached" : "found though not attached"); }
  return p.undefinedContent ? out : out + snapshot(ctx, g, who);
}
static Op randomProg(Rng &r, bool noExt = false) {
  static const int w[] = {PR_EMBED, PR_EMBED, PR_EMBED, PR_DFS, PR_SORT2, PR_LOW, PR_READ, PR_READ, PR_WRITE, PR_REINIT, PR_ATTACH, PR_ATTACH, PR_ATTACH, PR_DETACH, PR_FILL, PR_FILL, PR_FILL, OP_HIDE_V, OP_CONTRACT};
  int x = r.below(26); if (x >= 19) return randomEdit(r, r.below(OP_EDIT_COUNT)); if (noExt && (w[x] == PR_ATTACH || w[x] == PR_DETACH)) return randomEdit(r, OP_DYN); return randomEdit(r, w[x]);
}
static void touchIds(Ctx &ctx) { GH d(newGraph(ctx, 1)); for (int i = 0; i < 4; ++i) { CHECK(ctx, attachFor(d, extAlg[i]) == OK, "setup: attach"); } }

// ------------------------------------------------------------------ G04
static Reg g04({"G04", "A graph of 1-30 vertices in the state left by a random history of edits, reads, embeddings, DFS, extension attachments (also with vertices hidden) is duplicated, or copied into a fresh, used or larger graph with other extensions, or its adjacency lists are copied; full comparison; then independent random histories on both, each watched for changes in the other; one is freed first and the other used on. Non-trivial: an extension was attached or the state was embedded, and at least 5 edges.",
  [](Rng &r, Case &c, bool th) {
    int n = r.chance(1, 20) ? r.range(1, 2) : r.range(3, r.chance(1, 4) ? 30 : 9); c.kind = "copy"; c.p["n"] = n; c.p["cap"] = startCap(r, n); c.p["how"] = r.below(6); c.p["dcap"] = r.below(4); c.p["dext"] = r.chance(1, 3) ? r.below(16) : 0; c.p["first"] = r.below(2); c.p["seed"] = (long)(r.next() >> 20); c.p["hidden"] = r.chance(1, 5);
    c.items.push_back(randomEdit(r, PR_FILL)); for (int k = r.range(0, 10); k > 0; --k) c.items.push_back(randomProg(r));
    c.items.push_back({-1}); for (int k = r.range(0, 8); k > 0; --k) { Op o = randomProg(r); o.push_back(r.below(2)); c.items.push_back(o); } },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"); if (n < 1) return; Rng r(c.get("seed")); touchIds(ctx); GH g(newGraph(ctx, n, c.get("cap"))); Prog pg; size_t i = 0;
    for (; i < c.items.size() && !(c.items[i].size() && c.items[i][0] == -1); ++i) progOp(ctx, g, pg, c.items[i], "original"); ++i;
    if (pg.undefinedContent) { gp_ReinitializeGraph(g); pg.ran = pg.undefinedContent = pg.dirtyVisited = pg.embedded = false; progOp(ctx, g, pg, {PR_FILL, 7}, "original"); }
    Model m = modelOf(ctx, g, "original"), mb = m; HideSim hg; bool hid = c.get("hidden") && !pg.dirtyVisited; if (hid) for (int k = 0; k < 3; ++k) hideOp(ctx, g, m, hg, randomEdit(r, OP_HIDE_V + r.below(3)));
    std::string before = snapshot(ctx, g, "original"); GH d; Prog pd; pd.dirtyVisited = pg.dirtyVisited; pd.ran = pg.ran; int how = c.get("how");
    bool needExt = false; for (int e : pg.ext) needExt |= e < 3;
    if (how == 0) { // adjacency lists only
      if (hid || !m.dir.empty()) { hideOp(ctx, g, m, hg, {OP_RESTORE_ALL}); hid = false; if (!m.dir.empty()) return; }
      before = snapshot(ctx, g, "original"); d.g = newGraph(ctx, n, c.get("dcap") == 0 ? 2 : 0); if (c.get("dcap") & 1) { Model t(n); for (int k = 0; k < 6; ++k) edit(ctx, d, t, randomEdit(r, OP_DYN), true); if (c.get("dcap") & 2) for (int k = 0; k < 4; ++k) edit(ctx, d, t, randomEdit(r, OP_DELETE), true); }
      CHECK(ctx, gp_CopyAdjacencyLists(d, g) == OK, "copy: gp_CopyAdjacencyLists failed"); compare(ctx, d, m, "copied lists"); pd.dirtyVisited = true; ctx.label("copy lists");
    } else {
      if (how < 3) { d.g = gp_DupGraph(g); CHECK(ctx, d.g, "copy: gp_DupGraph failed"); ctx.label("dup"); }
      else {
        int dm = c.get("dext"), big = c.get("dcap"), gc = gp_GetArcCapacity(g); d.g = newGraph(ctx, n, big == 0 ? (dm & 7 ? gc + 2 : 2) : big == 1 ? gc : gc + 2 * r.range(0, 40));
        if (how >= 4) { Prog t; progOp(ctx, d, t, {PR_FILL, r.below(1000)}, "destination"); if (how == 5) for (int k = 0; k < 3; ++k) progOp(ctx, d, t, randomProg(r, true), "destination"); ctx.label("used destination"); }
        CHECK(ctx, extMask(d, gp_GetArcCapacity(d) >= gc ? dm : 0) == OK, "setup: attach"); int dc = gp_GetArcCapacity(d);
        CHECK(ctx, gp_CopyGraph(d, g) == OK, "copy: gp_CopyGraph failed"); ctx.label("copy"); if (dc > gc) ctx.label("larger destination"); CHECK(ctx, gp_GetArcCapacity(d) >= gc, "copy: capacity %d after copying a graph of capacity %d", gp_GetArcCapacity(d), gc);
      }
      pd.ext = pg.ext; std::string a = snapshot(ctx, g, "original", false), b = snapshot(ctx, d, "copy", false); CHECK(ctx, a == b, "copy: the copy differs:\n%s\n--- original:\n%s", b.c_str(), a.c_str());
    }
    CHECK(ctx, snapshot(ctx, g, "original") == before, "copy: copying changed the original");
    if (hid) { // both can be restored
      HideSim hd = hg; Model md = m; for (auto &x : hd.st) CHECK(ctx, x.kind != OP_HIDE_E, "harness"); hideOp(ctx, d, md, hd, {OP_RESTORE_ALL}); compare(ctx, d, mb, "restored copy"); hideOp(ctx, g, m, hg, {OP_RESTORE_ALL}); compare(ctx, g, mb, "restored original"); ctx.label("copied with hidden parts");
    }
    ctx.nontrivial = (!pg.ext.empty() || pg.embedded) && m.m >= 5;
    std::string sg = snapshot(ctx, g, "original"), sd = snapshot(ctx, d, "copy"); bool ug = false, ud = false;
    for (; i < c.items.size(); ++i) { if (c.items[i].empty()) continue; bool onCopy = c.items[i].back() & 1; progOp(ctx, onCopy ? d : g, onCopy ? pd : pg, c.items[i], onCopy ? "copy" : "original"); (onCopy ? ud : ug) = (onCopy ? pd : pg).undefinedContent; std::string &other = onCopy ? sg : sd;
      if (!(onCopy ? ug : ud)) CHECK(ctx, snapshot(ctx, onCopy ? g : d, "the other") == other, "copy: an operation on the %s changed the other", onCopy ? "copy" : "original"); if (!(onCopy ? ud : ug)) (onCopy ? sd : sg) = snapshot(ctx, onCopy ? d : g, "own"); }
    bool fo = c.get("first"); gp_Free(fo ? &g.g : &d.g); GH &rest = fo ? d : g; Prog &pr = fo ? pd : pg;
    if (!(fo ? ud : ug)) CHECK(ctx, snapshot(ctx, rest, "survivor") == (fo ? sd : sg), "copy: freeing one graph changed the other");
    for (int k = 0; k < 3; ++k) progOp(ctx, rest, pr, randomProg(r), "survivor"); progOp(ctx, rest, pr, {PR_EMBED, r.below(6), 1}, "survivor");
  }, 40000, 500000, 60, false, 32, false, {"n", "how", "dcap", "dext"}});

// ------------------------------------------------------------------ G05
static Reg g05({"G05", "A graph of 1-24 vertices goes through a random history (edits, reads, embeddings with all algorithms, DFS, hide/contract, extension changes), is reinitialised, and then runs a second random program step by step next to a new object of the same order, capacity and extensions; every result and the complete observable state must be identical after each step. Non-trivial: the history embeds and the program embeds.",
  [](Rng &r, Case &c, bool th) {
    int n = r.chance(1, 20) ? r.range(1, 2) : r.range(3, r.chance(1, 4) ? 24 : 9); c.kind = "reuse"; c.p["n"] = n; c.p["cap"] = startCap(r, n);
    for (int k = r.range(1, 14); k > 0; --k) c.items.push_back(randomProg(r)); c.items.push_back({-1}); c.items.push_back(randomEdit(r, PR_FILL)); for (int k = r.range(1, 8); k > 0; --k) c.items.push_back(randomProg(r)); },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"); if (n < 1) return; touchIds(ctx); GH g(newGraph(ctx, n, c.get("cap"))); Prog p; size_t i = 0; bool e1 = false, e2 = false;
    for (; i < c.items.size() && !(c.items[i].size() && c.items[i][0] == -1); ++i) { progOp(ctx, g, p, c.items[i], "history"); if (c.items[i].size()) e1 |= c.items[i][0] == PR_EMBED; } ++i;
    gp_ReinitializeGraph(g); p.ran = p.dirtyVisited = p.undefinedContent = p.embedded = false; GH f(newGraph(ctx, n, gp_GetArcCapacity(g))); Prog q; for (int x : p.ext) { CHECK(ctx, attachFor(f, extAlg[x]) == OK, "setup: attach"); q.ext.push_back(x); }
    std::string a = snapshot(ctx, g, "reinitialised"), b = snapshot(ctx, f, "new"); CHECK(ctx, a == b, "reuse: the reinitialised graph differs from a new one:\n%s---\n%s", a.c_str(), b.c_str());
    for (; i < c.items.size(); ++i) { a = progOp(ctx, g, p, c.items[i], "reinitialised"); b = progOp(ctx, f, q, c.items[i], "new"); CHECK(ctx, a == b, "reuse: step %zu gives a different result on the reinitialised graph:\n%s--- new:\n%s", i, a.c_str(), b.c_str()); if (c.items[i].size()) e2 |= c.items[i][0] == PR_EMBED; ctx.evals++; }
    ctx.nontrivial = e1 && e2;
  }, 40000, 500000, 60, false, 32, false, {"n"}});

// ------------------------------------------------------------------ G06
static int detach(graphP g, int x, int how) {
  if (how & 1) return gp_RemoveExtension(g, extId(x));
  switch (extAlg[x]) { case A_DRAW: return gp_DetachDrawPlanar(g); case A_K33: return gp_DetachK33Search(g); case A_K4: return gp_DetachK4Search(g); default: return gp_DetachK23Search(g); }
}
static Reg g06({"G06", "Sequences of 2-30 attach/detach operations of the four extensions (before or after initialisation) on a graph of 1-14 vertices mixed with edits, reinitialisation, duplication and embedding with core and attached algorithms, checked against a model set: lookup, idempotence, correct verdicts and certificates, capacity growth only when no per-edge-data extension is attached, drawing data in the text exactly when drawing is attached. Non-trivial: at least two extensions attached at once, at least one detach of an attached one and one embed.",
  [](Rng &r, Case &c, bool th) {
    int n = r.range(1, 14); c.kind = "extensions"; c.p["n"] = n; c.p["pre"] = r.chance(1, 3) ? r.below(16) : 0; c.p["seed"] = (long)(r.next() >> 20);
    for (int k = r.range(2, 30); k > 0; --k) { int x = r.below(16); Op o = randomEdit(r, x < 5 ? 0 : x < 9 ? 1 : x < 12 ? 2 : x < 13 ? 3 : x < 14 ? 4 : x < 15 ? 5 : 6); c.items.push_back(o); } },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"), pre = c.get("pre"); if (n < 1) return; touchIds(ctx); Rng r(c.get("seed")); GH g(gp_New()); std::set<int> on; int multi = 0, det = 0, emb = 0;
    auto find = [&](graphP q, const char *what) { for (int i = 0; i < 4; ++i) { void *cx = (void *)1; int f = gp_FindExtension(q, extId(i), &cx); CHECK(ctx, !!f == (bool)on.count(i), "extension: %s: %s lookup says %d", what, algName[extAlg[i]], f); CHECK(ctx, f ? cx && cx == gp_GetExtension(q, extId(i)) : !cx && !gp_GetExtension(q, extId(i)), "extension: %s: wrong context pointer", what); } };
    std::vector<int> ids; for (int i = 0; i < 4; ++i) ids.push_back(extId(i)); std::sort(ids.begin(), ids.end()); CHECK(ctx, std::unique(ids.begin(), ids.end()) == ids.end() && ids[0] != 0, "extension: identifiers are not distinct");
    for (int i = 0; i < 4; ++i) if (pre >> i & 1) { CHECK(ctx, attachFor(g, extAlg[i]) == OK, "extension: attaching before initialisation failed"); on.insert(i); ctx.label("attached before init"); }
    find(g, "before init"); CHECK(ctx, gp_InitGraph(g, n) == OK, "extension: gp_InitGraph with extensions failed"); Model m(n);
    for (auto &o : c.items) {
      if (o.empty()) continue; auto arg = [&](size_t i) { return i < o.size() ? std::abs(o[i]) : 0; }; bool growth = !(on.count(0) || on.count(1) || on.count(2));
      if (o[0] == 0) { int x = arg(1) % 4; std::string s0; bool had = on.count(x); if (had) s0 = snapshot(ctx, g, "before"); void *c0 = gp_GetExtension(g, extId(x)); CHECK(ctx, attachFor(g, extAlg[x]) == OK, "extension: attaching %s failed", algName[extAlg[x]]); on.insert(x);
        if (had) { CHECK(ctx, snapshot(ctx, g, "after") == s0 && gp_GetExtension(g, extId(x)) == c0, "extension: attaching %s twice had an effect", algName[extAlg[x]]); ctx.label("attach twice"); } else ctx.label("attach"); multi |= on.size() >= 2; }
      else if (o[0] == 1) { int x = arg(1) % 4; int had = on.erase(x); int rc = detach(g, x, arg(2)); CHECK(ctx, rc == OK, "extension: detaching %s returned %d", algName[extAlg[x]], rc); det += had; ctx.label(had ? "detach" : "detach absent"); }
      else if (o[0] == 2) {
        std::vector<int> al{A_PLANAR, A_OUTER}; for (int x : on) al.push_back(extAlg[x]), al.push_back(extAlg[x]); int a = al[arg(1) % al.size()]; if (a == A_DRAW && holes(g)) a = A_PLANAR; UG in = edgesOf(m.adj); int res = runAlg(ctx, g, a, "extensions", arg(2) & 1); verifyResult(ctx, in, a, res, g, "extensions"); CHECK(ctx, (res == OK) == expectFree(in, a), "verdict: %s with %zu extensions says %d", algName[a], on.size(), res);
        if (a == A_DRAW && res == OK) verifyDrawing(ctx, g, drawingOf(g), "extensions"); emb++;
        if (contentDefined(a, res) && res == OK && arg(3) & 1) { m.adj = orders(ctx, g, "embedded"); std::string t = writeStr(ctx, g, WRITE_ADJLIST); bool dr = t.find("<DrawPlanar>") != std::string::npos; CHECK(ctx, dr == (bool)on.count(0), "extension: drawing data %s", dr ? "written without the extension" : "missing from the text"); ctx.label("write"); }
        gp_ReinitializeGraph(g); for (auto &e : edgesOf(m.adj).e) CHECK(ctx, gp_AddEdge(g, vx(g, e.first), 1, vx(g, e.second), 1) == OK, "extension: refilling failed"); Model k = modelOf(ctx, g, "refilled"); CHECK(ctx, sameEdges(edgesOf(k.adj), in), "extension: refilled graph differs"); m = k; }
      else if (o[0] == 3) { gp_ReinitializeGraph(g); m = Model(n); ctx.label("reinit"); }
      else if (o[0] == 4) { GH d(gp_DupGraph(g)); CHECK(ctx, d.g, "extension: dup failed"); find(d, "dup"); int x = arg(1) % 4; if (on.count(x)) { CHECK(ctx, detach(d, x, arg(2)) == OK, "extension: detaching from a duplicate failed"); CHECK(ctx, !gp_FindExtension(d, extId(x), NULL), "extension: still found on the duplicate"); } if (arg(3) & 1) { GH t; t.g = g.g; g.g = d.g; d.g = t.g; t.g = nullptr; on.erase(x); } ctx.label("dup"); }
      else if (o[0] == 5) { std::string s = snapshot(ctx, g, "x"); int cap = gp_GetArcCapacity(g), rc = gp_EnsureArcCapacity(g, cap + 2); CHECK(ctx, rc == (growth ? OK : NOTOK), "extension: growing the arc capacity returned %d with %zu extensions attached", rc, on.size()); compare(ctx, g, m, "grown"); }
      else if (o[0] == 6) { for (int k = 0; k < 3; ++k) edit(ctx, g, m, {OP_DELETE, arg(1) + k, 0, 0}, growth); }
      for (int k = 0; k < 4; ++k) { edit(ctx, g, m, {OP_ADD, arg(4) + k * arg(5), arg(6) + 3 * k, k & 1, 0}, growth); } compare(ctx, g, m, "extensions"); find(g, "after an operation");
    }
    ctx.nontrivial = multi && det && emb;
  }, 40000, 500000, 60, false, 32, false, {"n"}});

// ------------------------------------------------------------------ G07
static Reg g07({"G07", "A graph in a random state (as for G04) receives 10-60 invalid calls: null graph, vertices below and above the range, out-of-range or non-edge links, odd or non-positive capacities, second initialisation, copies between different orders, unknown modes, missing names, null output pointers, iterators used out of sequence; each must return the documented error value and leave the complete observable state unchanged. Non-trivial: at least 10 calls on a graph with edges.",
  [](Rng &r, Case &c, bool th) {
    int n = r.range(1, 12); c.kind = "invalid"; c.p["n"] = n; c.p["cap"] = startCap(r, n); c.items.push_back(randomEdit(r, PR_FILL)); for (int k = r.range(0, 5); k > 0; --k) c.items.push_back(randomProg(r)); c.items.push_back({-1}); for (int k = r.range(10, 60); k > 0; --k) c.items.push_back(randomEdit(r, 0)); },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"); if (n < 1) return; touchIds(ctx); GH g(newGraph(ctx, n, c.get("cap"))); Prog p; size_t i = 0;
    for (; i < c.items.size() && !(c.items[i].size() && c.items[i][0] == -1); ++i) progOp(ctx, g, p, c.items[i], "setup"); ++i; if (p.undefinedContent) gp_ReinitializeGraph(g);
    std::string s0 = snapshot(ctx, g, "before"); int N = g->N, calls = 0, lastVirtual = gp_GetLastVirtualVertex(g.g); GH other(newGraph(ctx, n + 1)); char none[] = "/nonexistent-directory/x"; char *str;
    for (; i < c.items.size(); ++i) {
      Op o = c.items[i]; auto arg = [&](size_t k) { return k < o.size() ? std::abs(o[k]) : 0; }; if (o.size() < 2) continue; int good = vx(g, arg(2) % N), bad = arg(3) & 1 ? lastVirtual + 1 + arg(4) % 5 : -(arg(4) % 4); // 0 and negative are below the first vertex
      int rc = NOTOK, want = NOTOK; const char *what = ""; bool link = arg(5) & 1; graphP nul = nullptr;
      #define CALL(k, expr) case k: what = #expr; rc = (expr); break
      switch (arg(1) % 62) {
        CALL(0, gp_AddEdge(nul, 1, 0, 2, 0)); CALL(1, gp_AddEdge(g, bad, 0, good, 0)); CALL(2, gp_AddEdge(g, good, 0, bad, 0)); CALL(3, gp_DynamicAddEdge(nul, 1, 0, 2, 0)); CALL(4, gp_DynamicAddEdge(g, bad, 0, good, 0)); CALL(5, gp_DynamicAddEdge(g, good, 1, bad, 1));
        CALL(6, gp_InsertEdge(nul, 1, NIL, 0, 2, NIL, 0)); CALL(7, gp_InsertEdge(g, bad, NIL, 0, good, NIL, 0)); CALL(8, gp_InsertEdge(g, good, NIL, 0, bad, NIL, 0)); CALL(9, gp_InsertEdge(g, good, NIL, link ? 2 : -1, good, NIL, 0)); CALL(10, gp_InsertEdge(g, good, NIL, 0, good, NIL, link ? 2 + arg(6) : -1 - arg(6)));
        CALL(11, gp_InsertEdge(g, good, gp_EdgeInUseIndexBound(g.g) + arg(6) % 7, 0, good, NIL, 0)); CALL(12, gp_InsertEdge(g, good, NIL, 0, good, gp_EdgeInUseIndexBound(g.g) + arg(6) % 7, 0)); CALL(13, gp_InsertEdge(g, good, 1, 0, good, NIL, 0));
        CALL(14, gp_EnsureArcCapacity(nul, 10)); CALL(15, gp_EnsureArcCapacity(g, 0)); CALL(16, gp_EnsureArcCapacity(g, -2 * (arg(6) % 100))); CALL(17, gp_EnsureArcCapacity(g, 2 * (arg(6) % 1000) + 1)); CALL(18, gp_InitGraph(nul, 5)); CALL(19, gp_InitGraph(g, N)); CALL(20, gp_InitGraph(g, 0));
        CALL(21, gp_CopyGraph(nul, g)); CALL(22, gp_CopyGraph(g, nul)); CALL(23, gp_CopyGraph(g, other)); CALL(24, gp_CopyAdjacencyLists(nul, g)); CALL(25, gp_CopyAdjacencyLists(g, nul)); CALL(26, gp_CopyAdjacencyLists(g, other));
        CALL(27, gp_ContractEdge(g, NIL)); CALL(28, gp_HideVertex(g, NIL)); CALL(29, gp_Embed(nul, EMBEDFLAGS_PLANAR)); CALL(30, gp_TestEmbedResultIntegrity(nul, g, OK)); CALL(31, gp_TestEmbedResultIntegrity(g, nul, OK)); CALL(32, gp_CreateDFSTree(nul));
        CALL(33, gp_Write(nul, none, WRITE_ADJLIST)); CALL(34, gp_Write(g, nullptr, WRITE_ADJLIST)); CALL(35, gp_Write(g, none, WRITE_ADJLIST)); CALL(36, gp_Write(g, none, 77)); CALL(37, gp_WriteToString(nul, &str, WRITE_ADJLIST)); CALL(38, gp_WriteToString(g, nullptr, WRITE_ADJLIST)); CALL(39, gp_Read(g, none));
        CALL(40, gp_GetVertexDegree(nul, 1)); CALL(41, gp_GetVertexDegree(g, NIL)); CALL(42, gp_GetVertexInDegree(g, NIL) + gp_GetVertexInDegree(nul, 1) + gp_GetVertexOutDegree(g, NIL) + gp_GetVertexOutDegree(nul, 1));
        CALL(43, gp_FindExtension(nul, K33SEARCH_ID, NULL)); CALL(44, gp_FindExtension(g, 0, NULL)); CALL(45, gp_RemoveExtension(nul, K33SEARCH_ID)); CALL(46, gp_RemoveExtension(g, 0));
        case 47: { what = "freeing null graph pointers"; gp_Free(nullptr); graphP z = gp_New(); gp_Free(&z); CHECK(ctx, !z, "invalid: gp_Free does not clear the pointer"); gp_Free(&z); gp_FreeExtensions(nullptr); gp_ReinitializeGraph(nullptr); rc = gp_IsArc(gp_GetNeighborEdgeRecord(g, NIL, good)) || gp_IsArc(gp_GetNeighborEdgeRecord(g, good, NIL)); break; }
        case 48: { what = "iterator calls out of sequence"; G6ReadIterator *it = nullptr; G6WriteIterator *iw = nullptr; int x = 0; rc = readGraphUsingG6ReadIterator(nullptr) || allocateG6ReadIterator(nullptr, g) || getNumGraphsRead(nullptr, &x) || getOrderOfGraphToRead(nullptr, &x) || beginG6ReadIterationFromG6FilePath(nullptr, none) || writeGraphUsingG6WriteIterator(nullptr) || allocateG6WriteIterator(nullptr, g) || allocateG6WriteIterator(&iw, nullptr) || getNumGraphsWritten(nullptr, &x) || beginG6WriteIterationToG6FilePath(nullptr, none);
          if (allocateG6ReadIterator(&it, nullptr) == OK && !it) rc = 1; if (it) freeG6ReadIterator(&it); freeG6ReadIterator(&it); if (iw) freeG6WriteIterator(&iw); freeG6WriteIterator(&iw); break; }
        CALL(49, gp_GetExtension(nul, K33SEARCH_ID) != nullptr); CALL(50, gp_SortVertices(nul)); CALL(51, gp_LowpointAndLeastAncestor(nul)); CALL(52, gp_AttachDrawPlanar(nul)); CALL(53, gp_AttachK23Search(nul) + gp_AttachK33Search(nul) + gp_AttachK4Search(nul)); CALL(54, gp_DetachDrawPlanar(nul) + gp_DetachK23Search(nul) + gp_DetachK33Search(nul) + gp_DetachK4Search(nul)); CALL(55, gp_ReadFromString(g, nullptr)); CALL(56, gp_CopyExtensions(nul, g) + gp_CopyExtensions(g, nul)); CALL(57, gp_DrawPlanar_RenderToString(nul, &str)); CALL(58, gp_DrawPlanar_RenderToFile(nul, none)); CALL(59, gp_DrawPlanar_RenderToString(other, &str)); CALL(60, gp_AddExtension(g, nullptr, nullptr, nullptr, nullptr, nullptr)); CALL(61, gp_InitGraph(g, -1 - arg(6)));
      }
      #undef CALL
      CHECK(ctx, rc == want, "invalid: %s returned %d instead of an error (order %d)", what, rc, N);
      std::string s1 = snapshot(ctx, g, what); CHECK(ctx, s1 == s0, "invalid: %s changed the graph:\n%s--- before:\n%s", what, s1.c_str(), s0.c_str()); ++calls; ctx.evals++;
    }
    ctx.nontrivial = calls >= 10 && g->M > 0;
  }, 40000, 400000, 60, false, 32, false, {"n"}});

// ------------------------------------------------------------------ G08

static Reg g08({"G08", "Operation sequences (up to 300) on the integer stack (within its capacity), the list collection (prepend, append, insert before/after an element, delete, both iterations, copy, reset), the string buffer (append text and characters, clear, copy, duplicate, take, read position, skipping) and the string-or-file stream (getc, ungetc, fgets with any buffer size, fputs, take) in string and file mode, against independent models. Non-trivial: at least 20 operations.",
  [](Rng &r, Case &c, bool th) {
    c.p["what"] = r.below(4); c.p["size"] = r.range(1, 40); c.kind = "container"; c.p["seed"] = (long)(r.next() >> 20); int k = r.range(1, r.chance(1, 4) ? 300 : 60); for (int i = 0; i < k; ++i) c.items.push_back(randomEdit(r, r.below(16))); },
  [](const Case &c, Ctx &ctx) {
    int what = c.get("what"), size = std::max(1L, c.get("size")); Rng r(c.get("seed")); ctx.nontrivial = c.items.size() >= 20;
    auto A = [](const Op &o, size_t i) { return i < o.size() ? std::abs(o[i]) : 0; };
    if (what == 0) {
      ctx.label("stack"); stackP s = sp_New(size); CHECK(ctx, s && sp_GetCapacity(s) == size && sp_IsEmpty(s), "stack: sp_New(%d)", size); std::vector<int> m;
      for (auto &o : c.items) {
        if (o.empty()) continue; int x = 0, y = 0;
        switch (o[0] % 12) {
          case 0: case 1: case 2: if ((int)m.size() < size) { sp_Push(s, A(o, 1)); m.push_back(A(o, 1)); } break;
          case 3: if ((int)m.size() + 2 <= size) { sp_Push2(s, A(o, 1), A(o, 2)); m.push_back(A(o, 1)); m.push_back(A(o, 2)); } break;
          case 4: if (m.size()) { sp_Pop(s, x); CHECK(ctx, x == m.back(), "stack: popped %d, expected %d", x, m.back()); m.pop_back(); } break;
          case 5: if (m.size() > 1) { sp_Pop2(s, x, y); CHECK(ctx, y == m.back() && x == m[m.size() - 2], "stack: popped pair %d,%d", x, y); m.resize(m.size() - 2); } break;
          case 6: if (m.size()) { sp_Pop_Discard(s); m.pop_back(); } break;
          case 7: if (m.size() > 1) { sp_Pop2_Discard1(s, x); CHECK(ctx, x == m[m.size() - 2], "stack: pop2_discard1 gave %d", x); m.resize(m.size() - 2); } break;
          case 8: if (m.size()) { int k = A(o, 1) % m.size(); CHECK(ctx, sp_Get(s, k) == m[k], "stack: element %d", k); sp_Set(s, k, A(o, 2)); m[k] = A(o, 2); } break;
          case 9: { stackP d = sp_Duplicate(s); CHECK(ctx, d && sp_GetCurrentSize(d) == (int)m.size(), "stack: duplicate"); for (size_t k = 0; k < m.size(); ++k) CHECK(ctx, sp_Get(d, k) == m[k], "stack: duplicate element"); std::swap(s, d); sp_Free(&d); CHECK(ctx, !d && sp_GetCapacity(s) >= size, "stack: free"); break; }
          case 10: { int q = r.range(1, 2 * size); stackP d = sp_New(q); for (int k = r.below(q + 1); k > 0; --k) sp_Push(d, k); int rc = A(o, 1) & 1 ? sp_CopyContent(d, s) : sp_Copy(d, s); bool fits = q >= (int)m.size(); CHECK(ctx, rc == OK || (A(o, 1) & 1 && !fits), "stack: copy returned %d", rc); if (rc == OK) { CHECK(ctx, sp_GetCurrentSize(d) == (int)m.size() && sp_GetCapacity(d) >= (int)m.size(), "stack: copied size"); for (size_t k = 0; k < m.size(); ++k) CHECK(ctx, sp_Get(d, k) == m[k], "stack: copied element %zu", k); for (int k = sp_GetCurrentSize(d); k < sp_GetCapacity(d); ++k) sp_Push(d, k); } sp_Free(&d); break; }
          case 11: if (A(o, 1) % 4 == 0) { sp_ClearStack(s); m.clear(); } else { int k = A(o, 1) % (size + 3); if (k <= (int)m.size()) { CHECK(ctx, sp_SetCurrentSize(s, k) == OK, "stack: set size"); m.resize(k); } else if (k > size) CHECK(ctx, sp_SetCurrentSize(s, k) == NOTOK && sp_GetCurrentSize(s) == (int)m.size(), "stack: size above capacity accepted"); } break;
        }
        CHECK(ctx, sp_GetCurrentSize(s) == (int)m.size() && !!(sp_IsEmpty(s)) == m.empty() && !!(sp_NonEmpty(s)) == !m.empty(), "stack: size %d, expected %zu", sp_GetCurrentSize(s), m.size()); int top = sp_Top(s); CHECK(ctx, top == (m.empty() ? NIL : m.back()), "stack: top %d", top);
      }
      sp_Free(&s); sp_Free(&s); sp_Free(nullptr);
    } else if (what == 1) {
      ctx.label("list collection"); int N = size + 2; listCollectionP L = LCNew(N); CHECK(ctx, L, "list: LCNew"); std::vector<std::vector<int>> ls(4); std::vector<int> head(4, NIL); std::set<int> fr; for (int i = 1; i < N; ++i) fr.insert(i);
      auto verify = [&](listCollectionP l) { for (int k = 0; k < 4; ++k) { std::vector<int> f, b; int x = head[k]; while (x != NIL && (int)f.size() <= N) { f.push_back(x); x = LCGetNext(l, head[k], x); } CHECK(ctx, f == ls[k], "list: list %d iterates wrongly forward (%zu of %zu elements)", k, f.size(), ls[k].size());
          if (head[k] != NIL) { int y = LCGetPrev(l, head[k], NIL); while (y != NIL && (int)b.size() <= N) { b.push_back(y); y = LCGetPrev(l, head[k], y); } std::reverse(b.begin(), b.end()); CHECK(ctx, b == ls[k], "list: list %d iterates wrongly backward", k); } } };
      for (auto &o : c.items) {
        if (o.empty()) continue; int k = A(o, 1) % 4; auto takeFree = [&] { auto it = fr.begin(); std::advance(it, A(o, 2) % fr.size()); int x = *it; fr.erase(it); return x; };
        switch (o[0] % 8) {
          case 0: case 1: if (fr.size()) { int x = takeFree(); int h = head[k]; head[k] = LCPrepend(L, h, x); ls[k].insert(ls[k].begin(), x); CHECK(ctx, head[k] == x, "list: prepend returned %d", head[k]); } break;
          case 2: case 3: if (fr.size()) { int x = takeFree(); int h = head[k]; head[k] = LCAppend(L, h, x); ls[k].push_back(x); CHECK(ctx, head[k] == ls[k][0], "list: append returned %d", head[k]); } break;
          case 4: if (fr.size() && ls[k].size()) { int x = takeFree(), p = A(o, 3) % ls[k].size(); LCInsertAfter(L, ls[k][p], x); ls[k].insert(ls[k].begin() + p + 1, x); } break;
          case 5: if (fr.size() && ls[k].size() > 1) { int x = takeFree(), p = 1 + A(o, 3) % (ls[k].size() - 1); LCInsertBefore(L, ls[k][p], x); ls[k].insert(ls[k].begin() + p, x); } break;
          case 6: if (ls[k].size()) { int p = A(o, 3) % ls[k].size(), x = ls[k][p], h = head[k]; head[k] = LCDelete(L, h, x); ls[k].erase(ls[k].begin() + p); fr.insert(x); CHECK(ctx, head[k] == (ls[k].empty() ? NIL : ls[k][0]), "list: delete returned %d", head[k]); } break;
          case 7: if (A(o, 3) % 3) { listCollectionP d = LCNew(N); LCCopy(d, L); verify(d); if (A(o, 4) & 1) std::swap(L, d); LCFree(&d); CHECK(ctx, !d, "list: free"); } else if (A(o, 3) % 9 == 0) { LCReset(L); for (int q = 0; q < 4; ++q) { for (int x : ls[q]) fr.insert(x); ls[q].clear(); head[q] = NIL; } } break;
        }
        verify(L);
      }
      LCFree(&L); LCFree(&L); LCFree(nullptr);
    } else if (what == 2) {
      ctx.label("string buffer"); strBufP s = sb_New(A(c.items.empty() ? Op{0} : c.items[0], 1) % 3 ? size : 0); CHECK(ctx, s && sb_GetSize(s) == 0 && !strcmp(sb_GetFullString(s), ""), "strbuf: new"); std::string m; int pos = 0;
      static const char *words[] = {"", "a", "0", "12", "-7", "+33 ", "  \t\n", "hello world", "x1 ", "\r\n"};
      for (auto &o : c.items) {
        if (o.empty()) continue;
        switch (o[0] % 12) {
          case 0: case 1: case 2: case 3: { std::string w = words[A(o, 1) % 10]; if (A(o, 2) % 5 == 0) w += std::string(A(o, 3) % 60, 'q'); std::vector<char> b(w.begin(), w.end()); b.push_back(0); CHECK(ctx, sb_ConcatString(s, b.data()) == OK, "strbuf: concat"); m += w; break; }
          case 4: CHECK(ctx, sb_ConcatChar(s, (char)('!' + A(o, 1) % 90)) == OK, "strbuf: concat char"); m += (char)('!' + A(o, 1) % 90); break;
          case 5: sb_ReadSkipWhitespace(s); while (pos < (int)m.size() && isspace((unsigned char)m[pos])) ++pos; break;
          case 6: sb_ReadSkipInteger(s); if (pos < (int)m.size() && (m[pos] == '-' || m[pos] == '+')) ++pos; while (pos < (int)m.size() && isdigit((unsigned char)m[pos])) ++pos; break;
          case 7: if (pos < (int)m.size()) { sb_ReadSkipChar(s); ++pos; } break;
          case 8: { int p = A(o, 1) % (m.size() + 1); sb_SetReadPos(s, p); pos = p; break; }
          case 9: if (A(o, 1) % 3 == 0) { sb_ClearBuf(s); m.clear(); pos = 0; } break;
          case 10: { strBufP d = A(o, 1) & 1 ? sb_Duplicate(s) : sb_New(A(o, 2) % 20); CHECK(ctx, d, "strbuf: duplicate"); if (!(A(o, 1) & 1)) { char j[] = "junk"; sb_ConcatString(d, j); sb_SetReadPos(d, A(o, 3) % 5); CHECK(ctx, sb_Copy(d, s) == OK, "strbuf: copy"); } CHECK(ctx, (size_t)sb_GetSize(d) == m.size() && m == sb_GetFullString(d), "strbuf: copy has \"%s\", expected \"%s\"", sb_GetFullString(d), m.c_str()); CHECK(ctx, m == sb_GetFullString(s), "strbuf: copying changed the source"); if (A(o, 3) & 1) { std::swap(s, d); pos = sb_GetReadPos(s); CHECK(ctx, pos >= 0 && pos <= (int)m.size(), "strbuf: read position %d of a copy of %zu characters", pos, m.size()); } sb_Free(&d); CHECK(ctx, !d, "strbuf: free"); break; }
          case 11: if (A(o, 1) % 3 == 0) { char *t = sb_TakeString(s); CHECK(ctx, t && m == t, "strbuf: taken string"); free(t); m.clear(); pos = 0; } break;
        }
        CHECK(ctx, (size_t)sb_GetSize(s) == m.size() && m == sb_GetFullString(s) && sb_GetCapacity(s) >= (int)m.size(), "strbuf: content \"%s\", expected \"%s\"", sb_GetFullString(s), m.c_str());
        CHECK(ctx, sb_GetReadPos(s) == pos && !strcmp(sb_GetReadString(s), m.c_str() + pos), "strbuf: read position %d, expected %d", sb_GetReadPos(s), pos);
      }
      sb_Free(&s); sb_Free(&s); sb_Free(nullptr);
    } else {
      std::string text; int lines = r.below(8); for (int i = 0; i < lines; ++i) { for (int k = r.below(r.chance(1, 4) ? 60 : 8); k > 0; --k) text += (char)(r.chance(1, 8) ? '\t' : ' ' + r.below(95)); text += r.chance(1, 4) ? "\r\n" : "\n"; } for (int k = r.below(6); k > 0; --k) text += 'z';
      bool file = c.get("seed") & 1; bool write = c.get("seed") >> 1 & 1; std::string path = scratchFile("sf.txt"); CHECK(ctx, !sf_New(nullptr, nullptr), "stream: made from nothing");
      if (write) {
        ctx.label(file ? "write file" : "write string"); std::string m; if (!file) { m = text; } strOrFileP s = file ? sf_New(fopen(path.c_str(), "w"), nullptr) : sf_New(nullptr, dupStr(text)); CHECK(ctx, s, "stream: sf_New");
        for (auto &o : c.items) { std::string w(A(o, 1) % 7, (char)('a' + A(o, 2) % 26)); if (A(o, 3) & 1) w += "\n"; std::vector<char> b(w.begin(), w.end()); b.push_back(0); int rc = sf_fputs(b.data(), s); CHECK(ctx, rc >= 0 && (file || rc == (int)w.size()), "stream: fputs of %zu characters returned %d", w.size(), rc); m += w; }
        if (!file) { char *t = sf_takeTheStr(s); CHECK(ctx, t && m == t, "stream: text is \"%s\", expected \"%s\"", t, m.c_str()); free(t); CHECK(ctx, sf_closeFile(s) == OK, "stream: close"); } else { char *t = sf_takeTheStr(s); CHECK(ctx, !t, "stream: a string from a file"); CHECK(ctx, sf_closeFile(s) == OK, "stream: close"); CHECK(ctx, slurp(path) == m, "stream: file content differs"); }
        sf_Free(&s); CHECK(ctx, !s, "stream: free");
      } else {
        ctx.label(file ? "read file" : "read string"); bool mac = !file && c.get("seed") % 5 == 0; if (mac) { std::string t; for (size_t i = 0; i < text.size(); ++i) if (text[i] != '\r') t += text[i] == '\n' ? '\r' : text[i]; text = t; } spit(path, text); strOrFileP s = file ? sf_New(fopen(path.c_str(), "r"), nullptr) : sf_New(nullptr, dupStr(text)); CHECK(ctx, s, "stream: sf_New"); std::string rest = text; bool pushed = true; if (mac) ctx.label("lines end with CR"); char last = 0;
        for (auto &o : c.items) {
          int k = o.empty() ? 0 : o[0] % 4;
          if (k == 0 || k == 3) { int ch = sf_getc(s); if (rest.empty()) { CHECK(ctx, ch == EOF, "stream: %d at the end", ch); pushed = true; } else { CHECK(ctx, ch == rest[0], "stream: got %d, expected %d", ch, rest[0]); last = rest[0]; rest.erase(0, 1); pushed = false; } }
          else if (k == 1) { if (!pushed) { if (A(o, 1) % 3 == 0) last = (char)('!' + A(o, 2) % 90); char ch = sf_ungetc(last, s); CHECK(ctx, ch == last, "stream: ungetc returned %d", ch); rest.insert(rest.begin(), last); pushed = true; } }
          else if (A(o, 1) % 11 == 10) { int cnt = A(o, 2) % 3 - 1; std::vector<char> b(4, 'X'); char *t = sf_fgets(b.data(), cnt, s); if (cnt < 1) CHECK(ctx, !t && b[0] == 'X', "stream: fgets(%d) did something", cnt); else if (!rest.empty()) CHECK(ctx, t == b.data() && !b[0] && b[1] == 'X', "stream: fgets(1)"); }
          else { int cnt = A(o, 1) % 5 ? 2 + A(o, 2) % 12 : 2 + A(o, 2) % 200; std::vector<char> b(cnt + 1, 'X'); char *t = sf_fgets(b.data(), cnt, s); if (rest.empty()) CHECK(ctx, !t, "stream: fgets at the end"); else { size_t e = rest.find(mac ? '\r' : '\n'); std::string w = rest.substr(0, e == std::string::npos ? rest.size() : e + 1); if ((int)w.size() > cnt - 1) w.resize(cnt - 1);
              CHECK(ctx, t == b.data() && w == b.data(), "stream: fgets(%d) gave \"%s\", expected \"%s\"", cnt, t ? b.data() : "(null)", w.c_str()); CHECK(ctx, b[cnt] == 'X', "stream: fgets wrote past its buffer"); rest.erase(0, w.size()); pushed = true; } }
        }
        sf_Free(&s); CHECK(ctx, !s, "stream: free");
      }
    }
  }, 60000, 600000, 60, false, 32, false, {"what", "size"}});
