// Random graph generation (R01, R02).
#include "sim.h"
// The library draws from rand(); the check supplies the numbers, so that shapes which
// a real seed would hardly ever give (paths, stars, caterpillars) are reached too.
struct Source {
  Rng r; int mode, n; long k = 0;
  int operator()() {
    ++k; if (mode == 0 || k >= n) return (int)(r.next() & 0x7fffffff);
    int v = (int)k; // the k-th draw picks a neighbour of vertex k+1 among the k earlier ones; small numbers are taken as they are
    switch (mode) { case 1: return 0; case 2: return v - 1; case 3: return v & 1 ? v - 1 : std::max(0, v - 2); case 4: return r.chance(1, 6) ? r.below(v) : v - 1; case 5: return r.chance(1, 6) ? r.below(v) : 0; case 6: return (v - 1) / 2; default: return std::max(0, v - 1 - r.below(3)); }
  }
};
static const char *modeName[] = {"uniform", "star", "path", "caterpillar", "path with jumps", "star with jumps", "binary tree", "band"};
static UG subOf(graphP g, int m) { // the first m edges by edge record
  UG u(g->N); for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g) && u.m() < m; e += 2) if (gp_EdgeInUse(g, e)) u.e.push_back({ix(g, gp_GetNeighbor(g, e)), ix(g, gp_GetNeighbor(g, gp_GetTwinArc(g, e)))});
  return u;
}
static bool includes(const UG &big, const UG &small) { auto b = edgeSet(big); for (auto &e : small.e) if (!b.count(norm(e.first, e.second))) return false; return true; }
static void usable(Ctx &ctx, graphP g, const UG &in, Rng &r) { // the object is in the state of a graph built by hand
  for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) CHECK(ctx, gp_IsNotVertex(gp_GetVertexParent(g, v)), "random: vertex %d has a DFS parent though no DFS was made", ix(g, v));
  Model m = modelOf(ctx, g, "random graph"); CHECK(ctx, m.dir.empty(), "random: an edge has a direction"); compare(ctx, g, m, "random graph");
  GH d(gp_DupGraph(g)); CHECK(ctx, d.g, "setup: dup"); HideSim h; for (int i = 0; i < 4; ++i) hideOp(ctx, d, m, h, randomEdit(r, OP_HIDE_E + r.below(4))); hideOp(ctx, d, m, h, {OP_RESTORE_ALL}); compare(ctx, d, m, "restored random graph");
  for (int a = 0; a < A_COUNT; ++a) { if (in.m() > 600 && a >= A_K23 && !r.chance(1, 6)) continue; GH q(gp_DupGraph(g)); CHECK(ctx, q.g, "setup: dup"); int res = runAlg(ctx, q, a, "random graph"); verifyResult(ctx, in, a, res, q, "random graph"); CHECK(ctx, (res == OK) == expectFree(in, a), "verdict: %s on a random graph says %d", algName[a], res); if (a == A_DRAW && res == OK) verifyDrawing(ctx, q, drawingOf(q), "random graph"); ctx.evals++; }
}
static int genN(Rng &r, bool th) { int k = r.below(20); return k == 0 ? 1 : k == 1 ? 2 : k < 12 ? r.range(3, 9) : k < 18 ? r.range(8, 24) : r.range(20, th ? 120 : 60); }

static Reg r01({"R01", "Orders 1-60 (120), requested edge counts from 0 to complete and beyond (weighted to tree, 3N-6 and complete), default or raised arc capacity, rand() replaced by uniform or shaped sequences (star, path, caterpillar, binary, band trees first). Checks simplicity, connectedness, exact edge count, planarity (maximality at 3N-6), a maximal planar subgraph beyond, the state of the object, all six algorithms, and equality for equal sequences. Non-trivial: N >= 4 and more edges than a tree.",
  [](Rng &r, Case &c, bool th) {
    int n = genN(r, th); long full = (long)n * (n - 1) / 2, mp = std::max(n - 1, 3 * n - 6), want;
    switch (r.below(8)) { case 0: want = r.range(0, n); break; case 1: want = mp; break; case 2: want = mp + r.range(1, 3); break; case 3: want = full - r.below(3); break; case 4: want = full + r.range(0, 4); break; case 5: want = r.range(0, (int)full + 1); break; default: want = r.range(n - 1, (int)mp); }
    c.kind = "edges"; c.p["n"] = n; c.p["want"] = std::max(0L, want); c.p["mode"] = r.below(3) ? r.below(8) : 0; c.p["cap"] = r.below(3); c.p["seed"] = (long)(r.next() >> 20); },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"), mode = std::abs(c.get("mode")) % 8; long want = c.get("want"), full = (long)n * (n - 1) / 2; if (n < 1 || want < 0 || want > full + 10 || n > 250) return;
    auto make = [&](long m, GH &g) { g.g = gp_New(); CHECK(ctx, g.g && gp_InitGraph(g, n) == OK, "setup: init"); if (c.get("cap")) { long a = 2 * std::max(m, 1L) + 2 * (c.get("cap") - 1); CHECK(ctx, gp_EnsureArcCapacity(g, (int)a) == OK, "setup: capacity"); }
      Source s{Rng(c.get("seed")), mode, n}; mt_rand(std::ref(s)); int rc = gp_CreateRandomGraphEx(g, (int)m); mt_rand(nullptr); CHECK(ctx, rc == OK, "random: gp_CreateRandomGraphEx(%d vertices, %ld edges) returned %d", n, m, rc); };
    GH g; make(want, g); UG u = edgesOf(orders(ctx, g, "random graph")); CHECK(ctx, (int)edgeSet(u).size() == u.m(), "random: an edge occurs twice");
    long exp = std::max((long)n - 1, std::min(want, std::min(full, (long)gp_GetArcCapacity(g) / 2)));
    CHECK(ctx, u.m() == exp, "random: %d edges for order %d when asked for %ld (%s tree), expected %ld", u.m(), n, want, modeName[mode], exp);
    CHECK(ctx, isConnected(u), "random: the graph is not connected");
    long mp = n < 3 ? n - 1 : 3 * n - 6;
    if (exp <= mp) CHECK(ctx, isPlanar(u), "random: %ld edges requested for order %d (%s tree), result is not planar", want, n, modeName[mode]);
    else { UG s = subOf(g, (int)mp); bool ok = s.m() == mp && isPlanar(s); if (!ok) { GH h; make(mp, h); UG t = edgesOf(orders(ctx, h, "maximal")); ok = t.m() == mp && isPlanar(t) && includes(u, t); } CHECK(ctx, ok, "random: no maximal planar spanning subgraph found in %d edges on %d vertices", u.m(), n); ctx.label("beyond maximal planar"); }
    if (exp == mp) ctx.label("maximal planar"); if (exp == full) ctx.label("complete"); ctx.label(std::string("tree: ") + modeName[mode]);
    Rng r(c.get("seed") + 1); usable(ctx, g, u, r);
    GH h; make(want, h); CHECK(ctx, orders(ctx, h, "again") == orders(ctx, g, "first"), "random: the same sequence of random numbers gives a different graph");
    srand(c.get("seed") & 0xffff); GH a, b; a.g = gp_New(); gp_InitGraph(a, n); CHECK(ctx, gp_CreateRandomGraphEx(a, (int)std::min(want, full)) == OK, "random: failed after srand"); srand(c.get("seed") & 0xffff); b.g = gp_New(); gp_InitGraph(b, n); gp_CreateRandomGraphEx(b, (int)std::min(want, full)); CHECK(ctx, orders(ctx, a, "a") == orders(ctx, b, "b"), "random: the same seed gives a different graph");
    ctx.nontrivial = n >= 4 && exp >= n;
  }, 12000, 150000, 60, false, 16, false, {"n"}});

static Reg r02({"R02", "Orders 1-60 (120, a few of about 47000), default, minimal or raised arc capacity, uniform or shaped rand() sequences; checks simplicity, connectedness, N-1 <= M <= capacity/2, the state of the object, all six algorithms, reuse after reinitialisation, and equality for equal seeds. Non-trivial: N >= 4 and more edges than a tree.",
  [](Rng &r, Case &c, bool th) {
    c.kind = "default"; c.p["n"] = r.below(th ? 20000 : 5000) == 0 ? r.range(46342, 47000) : genN(r, th); c.p["mode"] = r.below(3) ? r.below(8) : 0; c.p["cap"] = r.below(4); c.p["seed"] = (long)(r.next() >> 20); },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"), mode = std::abs(c.get("mode")) % 8; if (n < 1) return; if (n > 250) mode = 0; GH g(gp_New()), h(gp_New()); CHECK(ctx, g.g && h.g, "setup");
    for (graphP q : {g.g, h.g}) { if (c.get("cap") == 1) gp_EnsureArcCapacity(q, 2 * std::max(1, n - 1)); if (c.get("cap") == 2) gp_EnsureArcCapacity(q, 2 * std::max(1, n - 1) + 2 * (int)(c.get("seed") % 7)); CHECK(ctx, gp_InitGraph(q, n) == OK, "setup: init"); if (c.get("cap") == 3 && n < 250) CHECK(ctx, gp_EnsureArcCapacity(q, n * (n + 1)) == OK, "setup: capacity"); }
    auto gen = [&](graphP q) { Source s{Rng(c.get("seed")), mode, n}; mt_rand(std::ref(s)); int rc = gp_CreateRandomGraph(q); mt_rand(nullptr); CHECK(ctx, rc == OK, "random: gp_CreateRandomGraph of order %d with capacity %d returned %d", n, gp_GetArcCapacity(q), rc); };
    gen(g); Adj a = orders(ctx, g, "random graph"); UG u = edgesOf(a); CHECK(ctx, (int)edgeSet(u).size() == u.m(), "random: an edge occurs twice");
    CHECK(ctx, isConnected(u), "random: the graph of order %d is not connected (%s tree)", n, modeName[mode]); CHECK(ctx, u.m() >= n - 1 && u.m() <= gp_GetArcCapacity(g) / 2, "random: %d edges for order %d and arc capacity %d", u.m(), n, gp_GetArcCapacity(g));
    ctx.label(std::string("tree: ") + modeName[mode]); ctx.nontrivial = n >= 4 && u.m() >= n;
    if (n > 1000) { CHECK(ctx, u.m() >= 7 * (n / 8), "random: few edges"); ctx.label("order > 46341"); GH d(gp_DupGraph(g)); int res = runAlg(ctx, d, A_PLANAR, "random graph", false); verifyResult(ctx, u, A_PLANAR, res, d, "random graph"); return; }
    gen(h); CHECK(ctx, orders(ctx, h, "again") == a, "random: the same random numbers give a different graph");
    gp_ReinitializeGraph(h); gen(h); CHECK(ctx, orders(ctx, h, "reinitialised") == a, "random: a reinitialised object gets a different graph");
    Rng r(c.get("seed") + 1); usable(ctx, g, u, r);
    gp_ReinitializeGraph(h); srand(c.get("seed") & 0xffff); CHECK(ctx, gp_CreateRandomGraph(h) == OK, "random: failed"); a = orders(ctx, h, "first"); gp_ReinitializeGraph(h); srand(c.get("seed") & 0xffff); CHECK(ctx, gp_CreateRandomGraph(h) == OK, "random: failed"); CHECK(ctx, orders(ctx, h, "second") == a, "random: the same seed gives a different graph");
  }, 12000, 150000, 60, false, 16, false, {"n"}});
