// Drawing, rendition, presentation/history independence, metamorphic relations,
// integrity checker, DFS utilities (E08-E13).
#include "lib.h"
extern "C" {
#include "planarityRelated/graphDrawPlanar.private.h"
}
typedef std::vector<std::pair<Profile,int>> Mix;
static void genFor(Rng &r, Case &c, bool th, const Mix &mix, int cap = 1000) {
  int tot = 0; for (auto &x : mix) tot += x.second; int k = r.below(tot); Profile p = mix[0].first;
  for (auto &x : mix) { if (k < x.second) { p = x.first; break; } k -= x.second; }
  UG g = genGraph(r, p, pickSize(r, th, cap), c.kind);
  present(r, g, c);
}
// ------------------------------------------------------------------ E08
static Reg e08({"E08", "Graphs as for E01 weighted to planar ones of 1-160 (thorough 900) vertices. Oracle: rotation system + independent visibility-representation rules on the coordinates. Non-trivial: planar, at least 6 vertices and as many edges as vertices.",
  [](Rng &r, Case &c, bool th) { genFor(r, c, th, {{P_PLANAR, 14}, {P_OUTER, 3}, {P_SP, 3}, {P_SPARSE, 2}, {P_ANY, 1}, {P_NONPLANAR, 2}}); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); labelGraph(ctx, in); GH g(buildGraph(ctx, in));
    int res = runAlg(ctx, g, A_DRAW, "draw", true);
    verifyResult(ctx, in, A_DRAW, res, g, "draw");
    CHECK(ctx, (res == OK) == isPlanar(in), "verdict: drawing says %d", res);
    if (res == OK) verifyDrawing(ctx, g, drawingOf(g), "draw");
    ctx.nontrivial = res == OK && in.n >= 6 && in.m() >= in.n;
  }, 60000, 900000, 60, true});

// ------------------------------------------------------------------ E09
static Reg e09({"E09", "Planar graphs with at least one edge, built by edge calls (1-based) or read from 0-/1-based adjacency lists, drawn and rendered to string and file; oracle: re-derivation of every character from the coordinates and recovery of the labelled graph from the text. Non-trivial: at least 6 vertices and 5 edges.",
  [](Rng &r, Case &c, bool th) {
    int big = r.chance(1, 6); UG g;
    if (big) { // many three-digit labels with short runs
      g = gThin(r, gTriangulation(r, r.range(90, th ? 320 : 150), r.chance(1, 2) ? 0 : 200), r.range(300, 700)); c.kind = "large-sparse"; if (!g.m()) g = gPath(5); present(r, g, c);
    } else do genFor(r, c, th, {{P_PLANAR, 10}, {P_OUTER, 3}, {P_SP, 2}, {P_SPARSE, 3}}, 300); while (c.items.empty() || !isPlanar(fromCase(c)));
    c.p["base"] = r.below(3); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); if (!in.m() || !isPlanar(in)) return; labelGraph(ctx, in);
    int base = c.get("base"); GH g; int off = 1;
    if (base == 2) g.g = buildGraph(ctx, in);
    else { std::string t = adjListText(in, base == 0); g.g = gp_New(); CHECK(ctx, readStr(g, t) == OK, "setup: reading adjacency list failed"); off = base == 0 ? 0 : 1; }
    int res = runAlg(ctx, g, A_DRAW, "draw"); CHECK(ctx, res == OK, "verdict: planar graph not drawn");
    Drawing d = drawingOf(g); Adj before = orders(ctx, g, "drawn"); std::string txt0 = writeStr(ctx, g, WRITE_ADJLIST);
    verifyDrawing(ctx, g, d, "drawn");
    char *s = nullptr; CHECK(ctx, gp_DrawPlanar_RenderToString(g, &s) == OK && s, "rendition: RenderToString failed"); std::string t = s; free(s);
    std::string p = scratchFile("render.txt"); std::vector<char> pn(p.begin(), p.end()); pn.push_back(0);
    CHECK(ctx, gp_DrawPlanar_RenderToFile(g, pn.data()) == OK, "rendition: RenderToFile failed");
    CHECK(ctx, slurp(p) == t, "rendition: file and string renditions differ");
    // map edges of the drawing to input edges via the adjacency of the drawn graph
    Drawing e = d; UG out = edgesOf(before); CHECK(ctx, sameEdges(out, in), "labels: drawn graph differs from input");
    checkRendition(ctx, in, e, t, off);
    CHECK(ctx, orders(ctx, g, "rendered") == before && writeStr(ctx, g, WRITE_ADJLIST) == txt0, "rendition: rendering changed the graph");
    ctx.nontrivial = in.n >= 6 && in.m() >= 5;
  }, 30000, 400000, 60, true});

// ------------------------------------------------------------------ E10
enum { RT_CALLS, RT_LIST0, RT_LIST1, RT_MATRIX, RT_LEDA, RT_G6, RT_G6STR, RT_DUP, RT_COPY, RT_LISTFILE, RT_CALLSRAND, RT_COUNT };
static void supply(Ctx &ctx, GH &g, const UG &in, int route, uint64_t seed) {
  auto str = [&](const std::string &t) { if (!g.g) g.g = gp_New(); CHECK(ctx, readStr(g, t) == OK, "route: reading from string (route %d) failed", route); };
  auto file = [&](const std::string &t) { if (!g.g) g.g = gp_New(); CHECK(ctx, readFile(g, t) == OK, "route: reading from file (route %d) failed", route); };
  if (g.g && g.g->N > 0) { gp_ReinitializeGraph(g); }
  switch (route) {
    case RT_LIST0: str(adjListText(in, true)); return;
    case RT_LIST1: str(adjListText(in, false)); return;
    case RT_MATRIX: file(matrixText(in)); return;
    case RT_LEDA: file(ledaText(in)); return;
    case RT_G6: file(g6Text(in)); return;
    case RT_G6STR: str(g6Text(in)); return;
    case RT_LISTFILE: file(adjListText(in, true)); return;
    default: break;
  }
  if (!g.g) { g.g = gp_New(); }
  if (g.g->N == 0) CHECK(ctx, gp_InitGraph(g, in.n) == OK, "setup: InitGraph");
  Rng r(seed);
  for (auto &e : in.e) { int l1 = route == RT_CALLSRAND ? r.below(2) : 0, l2 = route == RT_CALLSRAND ? r.below(2) : 0; CHECK(ctx, gp_DynamicAddEdge(g, vx(g, e.first), l1, vx(g, e.second), l2) == OK, "route: gp_DynamicAddEdge(%d,%d) failed", e.first, e.second); }
}
static UG relabel(const UG &g, const std::vector<int> &p) { UG h(g.n); for (auto &e : g.e) h.e.push_back({p[e.first], p[e.second]}); return h; }
static Reg e10({"E10", "One abstract graph presented in several ways: vertex permutation, edge order and direction, route (calls, adjacency list 0/1-based, matrix, LEDA, g6, string or file, dup, copy), unused extensions attached, spare arc capacity, prior DFS sort, prior embedding then reinitialisation; every algorithm's verdict must equal the independent oracle's and the certificate must be right for the presented graph; a duplicate run must give the identical result. Non-trivial: at least 6 vertices, a cycle.",
  [](Rng &r, Case &c, bool th) {
    do { UG g = mixed(r, th, c.kind, 120); present(r, g, c); } while (c.get("n") < 2);
    c.p["alg"] = r.below(A_COUNT); c.p["seed"] = (long)(r.next() >> 20); c.p["route"] = r.below(RT_COUNT); c.p["ext"] = r.below(32); c.p["sort"] = r.below(4); c.p["cap"] = r.below(3); c.p["prior"] = r.below(4) == 0 ? 1 + r.below(A_COUNT) : 0; },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); if (in.n < 2) return; labelGraph(ctx, in); int alg = c.get("alg"), route = c.get("route"); Rng r(c.get("seed"));
    bool want = expectFree(in, alg);
    UG pres = in; std::vector<int> perm = permutation(r, in.n); pres = relabel(in, perm); r.shuffle(pres.e); for (auto &e : pres.e) if (r.chance(1, 2)) std::swap(e.first, e.second);
    GH g(gp_New()); int ext = c.get("ext");
    // extensions attached before reading
    bool early = ext & 16;
    auto attach = [&](int m) { if (m & 1) CHECK(ctx, gp_AttachDrawPlanar(g) == OK, "attach: DrawPlanar"); if (m & 2) CHECK(ctx, gp_AttachK23Search(g) == OK, "attach: K23"); if (m & 4) CHECK(ctx, gp_AttachK33Search(g) == OK, "attach: K33"); if (m & 8) CHECK(ctx, gp_AttachK4Search(g) == OK, "attach: K4"); };
    int need = 2 * in.m();
    if (c.get("cap") == 1 || need > 6 * in.n) CHECK(ctx, gp_EnsureArcCapacity(g, std::max(6 * in.n, need) + 2 * (int)c.get("cap") * 7) == OK, "setup: EnsureArcCapacity");
    if (early) attach(ext & 15);
    if (c.get("prior")) { // another graph first, same object
      UG other = gGnm(r, in.n, r.below(std::min(3 * in.n, in.n * (in.n - 1) / 2) + 1)); supply(ctx, g, other, RT_CALLS, 1);
      int pa = c.get("prior") - 1; int pr = runAlg(ctx, g, pa, "prior run"); CHECK(ctx, (pr == OK) == expectFree(other, pa), "verdict: prior run of %s", algName[pa]); ctx.label("prior use");
    }
    if (route == RT_DUP || route == RT_COPY) {
      supply(ctx, g, pres, RT_CALLS, 1); GH h;
      if (route == RT_DUP) h.g = gp_DupGraph(g); else { h.g = gp_New(); if (need > 6 * in.n) gp_EnsureArcCapacity(h, gp_GetArcCapacity(g) + 2); CHECK(ctx, gp_InitGraph(h, in.n) == OK, "setup: init"); CHECK(ctx, gp_CopyGraph(h, g) == OK, "route: gp_CopyGraph failed"); }
      CHECK(ctx, h.g, "route: dup failed"); std::swap(g.g, h.g);
    } else { // only the g6 reader accepts an object that already holds a graph
      if (c.get("prior") && route != RT_CALLSRAND && route != RT_CALLS) route = route & 1 ? RT_G6 : RT_G6STR;
      supply(ctx, g, pres, route, r.next());
    }
    if (!early) attach(ext & 15);
    CHECK(ctx, g.g->N == in.n && sameEdges(edgesOf(orders(ctx, g, "supplied")), pres), "route: route %d supplied a different graph", route);
    if (c.get("sort") >= 2) { CHECK(ctx, (c.get("sort") == 2 ? gp_LowpointAndLeastAncestor(g) : gp_CreateDFSTree(g)) == OK, "setup: presort"); if (!(g->internalFlags & FLAGS_SORTEDBYDFI)) CHECK(ctx, gp_SortVertices(g) == OK, "setup: presort"); CHECK(ctx, gp_SortVertices(g) == OK, "setup: presort"); ctx.label("DFS sorted and restored before"); }
    GH twin(gp_DupGraph(g)); CHECK(ctx, twin.g, "setup: dup");
    char what[80]; snprintf(what, sizeof what, "route %d ext %d", route, ext);
    int res = runAlg(ctx, g, alg, what, true);
    CHECK(ctx, (res == OK) == want, "verdict: %s: %s gives %s for a graph that %s", what, algName[alg], res == OK ? "OK" : "NONEMBEDDABLE", want ? "is free" : "is not free");
    verifyResult(ctx, pres, alg, res, g, what);
    if (alg == A_DRAW && res == OK) verifyDrawing(ctx, g, drawingOf(g), what);
    int res2 = runAlg(ctx, twin, alg, "duplicate run", false);
    CHECK(ctx, res2 == res, "repeat: duplicate run of %s gives %d, first gave %d", algName[alg], res2, res);
    if (contentDefined(alg, res)) CHECK(ctx, orders(ctx, g, "first") == orders(ctx, twin, "second"), "repeat: duplicate run of %s gives different adjacency orders", algName[alg]);
    ctx.label("route " + std::to_string(route)); ctx.nontrivial = in.n >= 6 && in.m() >= in.n; ctx.evals++;
  }, 30000, 400000, 90, true, 32, true});

// ------------------------------------------------------------------ E11
static int verdict(Ctx &ctx, const UG &g, int a, UG *out = nullptr) {
  GH h(buildGraph(ctx, g)); int r = runAlg(ctx, h, a, "run"); if (out) *out = edgesOf(orders(ctx, h, "result")); return r;
}
static Reg e11({"E11", "Graph, algorithm and graph operations (edge deletion, contraction, subdivision, pendant and isolated vertices, gluing at a vertex, disjoint union, edge addition, re-run on the returned obstruction and on it minus each edge); only verdicts of the library itself are related to each other. Non-trivial: at least 6 vertices, a cycle.",
  [](Rng &r, Case &c, bool th) { UG g = mixed(r, th, c.kind, 80); present(r, g, c); c.p["alg"] = r.below(A_COUNT); c.p["op"] = r.below(7); c.p["seed"] = (long)(r.next() >> 20); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); labelGraph(ctx, in); int a = c.get("alg"), op = c.get("op"); Rng r(c.get("seed")); UG sub; if (in.n < 1) return;
    UG out; int res = verdict(ctx, in, a); ctx.label(std::string("op ") + std::to_string(op) + (res == OK ? " free" : " obstructed"));
    ctx.nontrivial = in.n >= 6 && in.m() >= in.n;
    auto exp = [&](const UG &h, int want, const char *w) { ctx.evals++; int q = verdict(ctx, h, a); CHECK(ctx, q == want, "metamorphic: %s: %s gave %d before and %d after (expected %d)", w, algName[a], res, q, want); };
    if (res == NONEMBEDDABLE && op < 3 && contentDefined(a, res)) {
      { GH h(buildGraph(ctx, in)); runAlg(ctx, h, a, "again"); out = edgesOf(orders(ctx, h, "result")); }
      UG again; int q = verdict(ctx, out, a, &again); CHECK(ctx, q == NONEMBEDDABLE, "metamorphic: the returned obstruction is accepted by %s", algName[a]);
      if (!(a == A_OUTER && subdivisionOf(out) == S_K4)) CHECK(ctx, sameEdges(out, again), "metamorphic: the obstruction of an obstruction is a different subgraph (%s)", algName[a]);
      if (a == A_OUTER && subdivisionOf(out) == S_K4 && out.m() > 6) return; // a properly subdivided K4 contains a smaller obstruction
      int step = std::max(1, out.m() / 12); for (int i = r.below(step); i < out.m(); i += step) exp(deleteEdge(out, i), OK, "an obstruction minus one edge");
      UG sup = in; if (op == 1) { sup = gAddEdges(r, in, 1); exp(sup, NONEMBEDDABLE, "adding an edge to an obstructed graph"); }
      return;
    }
    switch (op) {
      case 0: if (in.m()) for (int k = 0; k < 3; ++k) if (res == OK) exp(deleteEdge(in, r.below(in.m())), OK, "deleting an edge"); break;
      case 1: if (in.m() && res == OK) for (int k = 0; k < 3; ++k) exp(contractEdge(in, r.below(in.m())), OK, "contracting an edge"); break;
      case 2: if (in.m() && res == OK) { UG h = in; for (int k = 0; k < 4 && h.m(); ++k) h = r.chance(1, 2) ? deleteEdge(h, r.below(h.m())) : contractEdge(h, r.below(h.m())); if (h.n) exp(h, OK, "a sequence of deletions and contractions"); } break;
      case 3: { UG h = gSubdivide(r, in, 1 + r.below(6)); if (a == A_K23 || a == A_OUTER) { if (res == NONEMBEDDABLE) exp(h, res, "subdividing edges"); } else exp(h, res, "subdividing edges"); break; }
      case 4: { UG h = gPendants(r, in, 1 + r.below(5)); h.n += r.below(3); exp(h, res, "adding pendant and isolated vertices"); break; }
      case 5: case 6: { std::string k; UG b = mixed(r, false, k, 30); int rb = verdict(ctx, b, a); UG h = op == 5 ? gSum1(r, in, b) : gUnion(in, b); std::vector<int> p = permutation(r, h.n); h = relabel(h, p); r.shuffle(h.e); exp(h, res == OK && rb == OK ? OK : NONEMBEDDABLE, op == 5 ? "gluing at a vertex" : "disjoint union"); break; }
    }
  }, 12000, 200000, 120, true, 16, false, {"alg", "seed", "op"}});

// ------------------------------------------------------------------ E12
static void setRotation(graphP g, int v, const std::vector<int> &arcs) {
  for (size_t i = 0; i < arcs.size(); ++i) { gp_SetPrevArc(g, arcs[i], i ? arcs[i - 1] : NIL); gp_SetNextArc(g, arcs[i], i + 1 < arcs.size() ? arcs[i + 1] : NIL); }
  gp_SetFirstArc(g, v, arcs.empty() ? NIL : arcs.front()); gp_SetLastArc(g, v, arcs.empty() ? NIL : arcs.back());
}
static std::vector<int> arcsOf(graphP g, int v) { std::vector<int> a; for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) a.push_back(e); return a; }
static std::string stateOf(graphP g) { std::string s; for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) { s += std::to_string(gp_GetVertexIndex(g, v)) + ":"; for (int e : arcsOf(g, v)) s += std::to_string(e) + ">" + std::to_string(gp_GetNeighbor(g, e)) + " "; } s += std::to_string(g->M) + "," + std::to_string(g->N) + "," + std::to_string(g->internalFlags); return s; }
static Reg e12({"E12", "A genuine result of each algorithm, checked as is (must be accepted unchanged) and after one or two alterations of the result or the original (edge removed, original edge or foreign edge added, rotation permuted, original lacking an edge, drawing coordinate changed, separate cycle, path or star added beside an obstruction); the independent oracle decides whether the altered result is still right. Non-trivial: the altered result is wrong.",
  [](Rng &r, Case &c, bool th) { UG g = mixed(r, th, c.kind, 60); present(r, g, c); c.p["alg"] = r.below(A_COUNT); c.p["seed"] = (long)(r.next() >> 20); c.p["edits"] = 1 + r.below(2); c.p["state"] = r.below(2); c.p["osort"] = r.below(6) == 0; },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); int a = c.get("alg"); Rng r(c.get("seed"));
    GH g(buildGraph(ctx, in, 4)); GH orig(gp_DupGraph(g)); CHECK(ctx, orig.g, "setup: dup");
    CHECK(ctx, attachFor(g, a) == OK, "setup: attach");
    if (c.get("osort")) { CHECK(ctx, gp_CreateDFSTree(orig) == OK && gp_SortVertices(orig) == OK, "setup: sort"); ctx.label("original sorted"); }
    int res = gp_Embed(g, algFlags(a));
    CHECK(ctx, res == OK || res == NONEMBEDDABLE, "result: gp_Embed returned %d", res);
    std::string s0 = stateOf(g), o0 = stateOf(orig);
    int chk = gp_TestEmbedResultIntegrity(g, orig, res); CHECK(ctx, chk == res, "checker: genuine result of %s (%d) answered with %d", algName[a], res, chk);
    CHECK(ctx, stateOf(g) == s0, "checker: checking altered the result graph"); CHECK(ctx, stateOf(orig) == o0, "checker: checking altered the original graph");
    CHECK(ctx, gp_TestEmbedResultIntegrity(g, orig, NOTOK) == NOTOK, "checker: NOTOK not returned for NOTOK");
    CHECK(ctx, gp_TestEmbedResultIntegrity(NULL, orig, res) == NOTOK && gp_TestEmbedResultIntegrity(g, NULL, res) == NOTOK, "checker: NULL graph accepted");
    ctx.label(std::string(algName[a]) + (res == OK ? " OK" : " NE"));
    if (!contentDefined(a, res)) return;
    CHECK(ctx, gp_SortVertices(g) == OK, "setup: unsort"); if (c.get("osort")) CHECK(ctx, gp_SortVertices(orig) == OK, "setup: unsort original");
    UG ref = in; bool drawBad = false; std::string did;
    for (int k = 0; k < c.get("edits"); ++k) {
      UG cur = edgesOf(orders(ctx, g, "altered")); std::set<Edge> ce = edgeSet(cur), re = edgeSet(ref); int op = r.below(res == OK ? 6 : 8);
      switch (op) {
        case 6: case 7: { // a whole cycle, path or star beside the obstruction, put into the original as well
          std::vector<int> free; for (int v = 0; v < in.n; ++v) if (gp_GetVertexDegree(g, vx(g, v)) == (op == 6 ? 0 : gp_GetVertexDegree(g, vx(g, v)) == 2 && r.chance(1, 8) ? 2 : 0)) free.push_back(v);
          r.shuffle(free); int len = r.range(2, 6); if ((int)free.size() < 2) break; if ((int)free.size() > len) free.resize(len); std::vector<Edge> add; bool star = r.chance(1, 6); for (size_t i = 0; i + 1 < free.size(); ++i) add.push_back({star ? free[0] : free[i], free[i + 1]}); if (free.size() > 2 && !star && r.chance(5, 6)) add.push_back({free.back(), free[0]});
          for (auto &e : add) if (!ce.count(norm(e.first, e.second))) { bool inRef = re.count(norm(e.first, e.second)); if (!inRef && gp_DynamicAddEdge(orig, vx(orig, e.first), 0, vx(orig, e.second), 0) == OK) { ref.e.push_back(e); inRef = true; } if (inRef) gp_AddEdge(g, vx(g, e.first), r.below(2), vx(g, e.second), r.below(2)); }
          did += " added a separate cycle, path or star;"; break; }
        case 0: if (cur.m()) { Edge e = cur.e[r.below(cur.m())]; int rec = gp_GetNeighborEdgeRecord(g, vx(g, e.first), vx(g, e.second)); CHECK(ctx, gp_IsArc(rec), "setup: edge not found"); gp_DeleteEdge(g, rec, 0); did += " removed an edge;"; } break;
        case 1: { std::vector<Edge> cand; for (auto &e : re) if (!ce.count(e)) cand.push_back(e); if (!cand.empty()) { Edge e = r.pick(cand); if (gp_AddEdge(g, vx(g, e.first), r.below(2), vx(g, e.second), r.below(2)) == OK) did += " added an edge of the original;"; } break; }
        case 2: { for (int t = 0; t < 20 && in.n > 1; ++t) { int u = r.below(in.n), v = r.below(in.n); if (u != v && !re.count(norm(u, v)) && !ce.count(norm(u, v))) { if (gp_AddEdge(g, vx(g, u), r.below(2), vx(g, v), r.below(2)) == OK) did += " added a foreign edge;"; break; } } break; }
        case 3: case 5: if (op == 5 && a == A_DRAW && res == OK && in.m() > 0) {
            DrawPlanarContext *dc = (DrawPlanarContext *)gp_GetExtension(g, DRAWPLANAR_ID); Drawing d = drawingOf(g);
            if (r.chance(1, 2)) { int v = vx(g, r.below(in.n)); int w = r.below(3), dlt = r.chance(1, 2) ? 1 : -1; (w == 0 ? dc->VI[v].pos : w == 1 ? dc->VI[v].start : dc->VI[v].end) += dlt; }
            else if (!d.e.empty()) { int e = gp_GetFirstArc(g, vx(g, d.ev[r.below((int)d.ev.size())].first)); int w = r.below(3), dlt = r.chance(1, 2) ? 1 : -1; for (int x : {e, gp_GetTwinArc(g, e)}) (w == 0 ? dc->E[x].pos : w == 1 ? dc->E[x].start : dc->E[x].end) += dlt; }
            did += " changed a drawing coordinate;"; break;
          }
          else { std::vector<int> cand; for (int v = 0; v < in.n; ++v) if (gp_GetVertexDegree(g, vx(g, v)) >= 3) cand.push_back(v); if (!cand.empty()) { int v = vx(g, r.pick(cand)); auto ar = arcsOf(g, v); std::swap(ar[r.below((int)ar.size())], ar[r.below((int)ar.size())]); setRotation(g, v, ar); did += " permuted a rotation;"; } } break;
        case 4: { // original loses an edge (one of the result's, mostly)
          std::vector<Edge> cand; for (auto &e : re) if (ce.count(e)) cand.push_back(e); if (!cand.empty()) { Edge e = r.pick(cand); int rec = gp_GetNeighborEdgeRecord(orig, vx(orig, e.first), vx(orig, e.second)); gp_DeleteEdge(orig, rec, 0); UG nr(ref.n); for (auto &x : ref.e) if (norm(x.first, x.second) != e) nr.e.push_back(x); ref = nr; did += " original without an edge;"; } break; }
      }
    }
    Adj rot = orders(ctx, g, "altered"); UG cur = edgesOf(rot); std::set<Edge> ce = edgeSet(cur), re = edgeSet(ref); bool valid;
    if (res == OK) {
      valid = sameEdges(cur, ref) && badEmbedding(ref, rot, a == A_OUTER).empty();
      if (valid && a == A_DRAW) { try { verifyDrawing(ctx, g, drawingOf(g), ""); } catch (Failure &) { valid = false; drawBad = true; } }
    } else {
      valid = true; for (auto &e : ce) if (!re.count(e)) valid = false;
      int want = a == A_PLANAR || a == A_DRAW ? S_K5 | S_K33 : a == A_OUTER ? S_K4 | S_K23 : a == A_K23 ? S_K23 : a == A_K33 ? S_K33 : S_K4;
      if (!(subdivisionOf(cur) & want)) valid = false;
    }
    bool sorted = c.get("state"); if (sorted) CHECK(ctx, gp_SortVertices(g) == OK, "setup: sort");
    int c2 = gp_TestEmbedResultIntegrity(g, orig, res); ctx.evals++;
    if (!valid) { CHECK(ctx, c2 == NOTOK, "checker: wrong result accepted (%s %s, returned %d): after%s", algName[a], res == OK ? "embedding" : "obstruction", c2, did.c_str()); ctx.nontrivial = true; ctx.label(drawBad ? "wrong drawing rejected" : res == OK ? "wrong embedding rejected" : "wrong obstruction rejected"); }
    else if (res == OK ? a != A_OUTER && did.find("edge") == std::string::npos : true) { CHECK(ctx, c2 == res, "checker: right result refused (%s, returned %d): after%s", algName[a], c2, did.c_str()); ctx.label("right altered result accepted"); }
  }, 40000, 500000, 60, true, 32, false, {"seed", "alg"}});

// ------------------------------------------------------------------ E13
extern "C" int gp_LeastAncestor(graphP theGraph) __attribute__((weak)); // in the library, but in none of its headers
static Reg e13({"E13", "Random graphs; DFS tree, arc types, vertex sort and its undoing, least ancestor and lowpoint compared with definitions evaluated independently, also after repeated calls and with an extension attached. Non-trivial: at least 6 vertices and a cycle.",
  [](Rng &r, Case &c, bool th) { UG g = mixed(r, th, c.kind, 400); present(r, g, c); c.p["mode"] = r.below(7); c.p["ext"] = r.below(3) ? 0 : 1 + r.below(4); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); labelGraph(ctx, in); GH g(buildGraph(ctx, in)); if (c.get("ext")) attachFor(g, 1 + (int)c.get("ext"));
    Adj o0 = orders(ctx, g, "built"); int mode = c.get("mode"), n = in.n;
    if (mode == 0) { CHECK(ctx, gp_CreateDFSTree(g) == OK, "dfs: gp_CreateDFSTree failed"); CHECK(ctx, gp_CreateDFSTree(g) == OK, "dfs: second call failed"); }
    else if (mode == 1) { CHECK(ctx, gp_CreateDFSTree(g) == OK && gp_SortVertices(g) == OK, "dfs: create and sort failed"); CHECK(ctx, g.g->internalFlags & FLAGS_SORTEDBYDFI, "sort: not marked as sorted"); CHECK(ctx, gp_CreateDFSTree(g) == OK, "dfs: call on sorted graph failed"); }
    else if (mode <= 3 || !gp_LeastAncestor) { mode = std::min(mode, 3); CHECK(ctx, gp_LowpointAndLeastAncestor(g) == OK, "dfs: gp_LowpointAndLeastAncestor failed"); }
    else { if (mode == 5) CHECK(ctx, gp_CreateDFSTree(g) == OK && gp_SortVertices(g) == OK, "dfs: create and sort failed"); if (mode == 6) CHECK(ctx, gp_LowpointAndLeastAncestor(g) == OK && gp_SortVertices(g) == OK, "dfs: lowpoints failed"); CHECK(ctx, gp_LeastAncestor(g) == OK, "dfs: gp_LeastAncestor failed"); }
    bool sorted = g.g->internalFlags & FLAGS_SORTEDBYDFI; CHECK(ctx, g.g->internalFlags & FLAGS_DFSNUMBERED, "dfs: not marked as numbered");
    auto dfi = [&](int v) { return sorted ? v : gp_GetVertexIndex(g, v); };
    std::vector<int> at(n + 1, 0); // vertex with a DFI
    int first = gp_GetFirstVertex(g);
    std::vector<int> orig(n, -1);
    for (int v = first; gp_VertexInRange(g, v); ++v) { int d = dfi(v); CHECK(ctx, d >= first && gp_VertexInRange(g, d) && !at[d - first], "dfs: DFI %d of vertex %d out of range or repeated", d, ix(g, v)); at[d - first] = v; if (sorted) { int o = gp_GetVertexIndex(g, v); CHECK(ctx, o >= first && gp_VertexInRange(g, o) && orig[o - first] < 0, "sort: original number %d repeated or out of range", o); orig[o - first] = v; } }
    // with sorting, adjacency is the renamed original
    Adj now = ordersX(ctx, g, "after DFS", true);
    if (sorted) for (int o = 0; o < n; ++o) { std::vector<int> m; for (int w : o0[o]) m.push_back(ix(g, orig[w])); CHECK(ctx, m == now[ix(g, orig[o])], "sort: adjacency of original vertex %d is not the renamed original list", o); }
    else CHECK(ctx, now == o0, "dfs: adjacency lists changed");
    // DFS forest
    std::vector<int> last(n, 0); // last DFI in the subtree
    for (int d = n - 1; d >= 0; --d) { int v = at[d]; last[d] = std::max(last[d], d); int p = gp_GetVertexParent(g, v); if (gp_IsVertex(p)) { CHECK(ctx, p >= first && gp_VertexInRange(g, p), "dfs: parent out of range"); int pd = dfi(p) - first; CHECK(ctx, pd < d, "dfs: parent of DFI %d has DFI %d", d, pd); last[pd] = std::max(last[pd], last[d]); } }
    std::vector<int> kids(n, 0); for (int d = 0; d < n; ++d) { int p = gp_GetVertexParent(g, at[d]); if (gp_IsVertex(p)) kids[dfi(p) - first] += last[d] - d + 1; }
    for (int d = 0; d < n; ++d) CHECK(ctx, last[d] - d == kids[d], "dfs: subtree of DFI %d is not a contiguous preorder interval", d);
    for (int v = first; gp_VertexInRange(g, v); ++v) {
      int pe = 0; int d = dfi(v) - first;
      for (int e : arcsOf(g, v)) {
        int w = gp_GetNeighbor(g, e), t = gp_GetEdgeType(g, e), u = gp_GetEdgeType(g, gp_GetTwinArc(g, e)); int dw = dfi(w) - first;
        bool wDesc = dw > d && dw <= last[d], wAnc = d > dw && d <= last[dw]; CHECK(ctx, wDesc || wAnc, "dfs: edge (%d,%d) joins vertices unrelated in the DFS forest", ix(g, v), ix(g, w));
        if (wAnc) { bool tree = gp_GetVertexParent(g, v) == w; if (tree) ++pe; CHECK(ctx, t == (tree ? EDGE_TYPE_PARENT : EDGE_TYPE_BACK) && u == (tree ? EDGE_TYPE_CHILD : EDGE_TYPE_FORWARD), "dfs: edge (%d,%d) has types %d/%d", ix(g, v), ix(g, w), t, u); }
      }
      CHECK(ctx, pe == (gp_IsVertex(gp_GetVertexParent(g, v)) ? 1 : 0), "dfs: vertex %d has no edge to its parent", ix(g, v));
    }
    { int k; std::vector<int> cc = componentsOf(in, &k); int roots = 0; for (int v = first; gp_VertexInRange(g, v); ++v) if (gp_IsDFSTreeRoot(g, v)) ++roots; CHECK(ctx, roots == k, "dfs: %d DFS trees for %d components", roots, k); }
    if (mode >= 2) {
      std::vector<int> la(n), lp(n);
      for (int d = n - 1; d >= 0; --d) { int v = at[d]; la[d] = d; for (int e : arcsOf(g, v)) { int w = gp_GetNeighbor(g, e); if (w != gp_GetVertexParent(g, v)) la[d] = std::min(la[d], dfi(w) - first); } }
      for (int d = 0; d < n; ++d) lp[d] = la[d];
      for (int d = n - 1; d >= 0; --d) { int p = gp_GetVertexParent(g, at[d]); if (gp_IsVertex(p)) { int pd = dfi(p) - first; lp[pd] = std::min(lp[pd], lp[d]); } }
      for (int d = 0; d < n; ++d) { int v = at[d]; CHECK(ctx, gp_GetVertexLeastAncestor(g, v) - first == la[d], "lowpoint: least ancestor of DFI %d is %d, expected %d", d, gp_GetVertexLeastAncestor(g, v) - first, la[d]); if (mode != 4 && mode != 5) CHECK(ctx, gp_GetVertexLowpoint(g, v) - first == lp[d], "lowpoint: lowpoint of DFI %d is %d, expected %d", d, gp_GetVertexLowpoint(g, v) - first, lp[d]); }
      if (mode == 3) { CHECK(ctx, gp_LowpointAndLeastAncestor(g) == OK, "lowpoint: second call failed"); for (int d = 0; d < n; ++d) CHECK(ctx, gp_GetVertexLowpoint(g, at[d]) - first == lp[d], "lowpoint: second call changed a value"); }
    }
    if (!sorted) { CHECK(ctx, gp_SortVertices(g) == OK, "sort: failed"); }
    CHECK(ctx, gp_SortVertices(g) == OK, "sort: undo failed"); CHECK(ctx, !(g.g->internalFlags & FLAGS_SORTEDBYDFI), "sort: still marked as sorted"); CHECK(ctx, orders(ctx, g, "unsorted") == o0, "sort: sorting twice does not restore numbering and adjacency orders");
    ctx.label(mode == 0 ? "dfs" : mode == 1 ? "dfs+sort" : "lowpoint"); ctx.nontrivial = n >= 6 && in.m() >= n;
  }, 60000, 700000, 60, true});
