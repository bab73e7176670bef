#include "sim.h"
extern "C" {
#include "planarityRelated/graphDrawPlanar.private.h"
int gp_RestoreVertex(graphP theGraph);
}
int Model::flag(int u, int v) const {
  auto i = dir.find(norm(u, v)); if (i == dir.end()) return 0;
  bool out = (i->second == 1) == (u < v); return out ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY;
}
void Model::setFlag(int u, int v, int f) {
  if (!f) dir.erase(norm(u, v)); else dir[norm(u, v)] = (f == EDGEFLAG_DIRECTION_OUTONLY) == (u < v) ? 1 : 2;
}
Op randomEdit(Rng &r, int what) { Op o{what}; for (int i = 0; i < 6; ++i) o.push_back(r.below(1 << 12)); return o; }

void compare(Ctx &ctx, graphP g, const Model &m, const char *what, bool hidden) {
  Adj a = ordersX(ctx, g, what, !hidden);
  CHECK(ctx, a == m.adj, "model: %s: neighbour lists are [%s], expected [%s]", what, adjText(a).c_str(), adjText(m.adj).c_str());
  CHECK(ctx, g->M == m.m, "model: %s: edge count %d, expected %d", what, g->M, m.m);
  for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) {
    int w = ix(g, gp_GetNeighbor(g, e)), f = m.flag(ix(g, v), w);
    CHECK(ctx, (int)gp_GetDirection(g, e) == f, "model: %s: direction of the arc %d->%d is %d, expected %d", what, ix(g, v), w, (int)gp_GetDirection(g, e), f);
  }
  int used = 0; for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e += 2) used += gp_EdgeInUse(g, e) ? 1 : 0;
  CHECK(ctx, used == m.m, "model: %s: a scan of the edge records finds %d edges, expected %d", what, used, m.m);
  ctx.evals++;
}
Model modelOf(Ctx &ctx, graphP g, const char *what) {
  Model m(g->N); m.adj = orders(ctx, g, what); m.m = g->M;
  for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) {
    int f = gp_GetDirection(g, e), t = gp_GetDirection(g, gp_GetTwinArc(g, e));
    CHECK(ctx, (f == 0 && t == 0) || (f && t && f != t), "model: %s: the two arcs of an edge have directions %d and %d", what, f, t);
    if (f) m.setFlag(ix(g, v), ix(g, gp_GetNeighbor(g, e)), f);
  }
  return m;
}
std::string snapshot(Ctx &ctx, graphP g, const char *what, bool capacity) {
  std::string s = "N=" + std::to_string(g->N) + " M=" + std::to_string(g->M) + (capacity ? " cap=" + std::to_string(gp_GetArcCapacity(g)) : "") + " flags=" + std::to_string(g->internalFlags) + "," + std::to_string(g->embedFlags) + " ext=";
  int ids[] = {DRAWPLANAR_ID, K23SEARCH_ID, K33SEARCH_ID, K4SEARCH_ID}; for (int id : ids) s += gp_FindExtension(g, id, NULL) ? '1' : '0';
  Adj a = ordersX(ctx, g, what, false); s += "\n";
  for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) {
    s += std::to_string(ix(g, v)) + "(" + std::to_string(gp_GetVertexIndex(g, v)) + "," + std::to_string(gp_GetVertexParent(g, v)) + "):";
    for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) { s += " " + std::to_string(ix(g, gp_GetNeighbor(g, e))); int f = gp_GetDirection(g, e); if (f) s += f == (int)EDGEFLAG_DIRECTION_OUTONLY ? ">" : "<"; }
    s += "\n";
  }
  if (gp_FindExtension(g, DRAWPLANAR_ID, NULL)) {
    DrawPlanarContext *c = (DrawPlanarContext *)gp_GetExtension(g, DRAWPLANAR_ID); s += "draw:";
    for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) { s += " " + std::to_string(c->VI[v].pos) + "," + std::to_string(c->VI[v].start) + "," + std::to_string(c->VI[v].end); }
    for (int v = gp_GetFirstVertex(g); gp_VertexInRange(g, v); ++v) for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) s += " " + std::to_string(c->E[e].pos) + "," + std::to_string(c->E[e].start) + "," + std::to_string(c->E[e].end);
    s += "\n";
  }
  return s;
}
static int arcOf(Ctx &ctx, graphP g, const Model &m, int u, int v) {
  int e = gp_GetNeighborEdgeRecord(g, vx(g, u), vx(g, v));
  CHECK(ctx, gp_IsArc(e) && gp_GetNeighbor(g, e) == vx(g, v) && gp_GetNeighbor(g, gp_GetTwinArc(g, e)) == vx(g, u), "lookup: edge record of %d-%d not found or wrong", u, v);
  return e;
}
static void queries(Ctx &ctx, graphP g, const Model &m, int u, int v) {
  if (u != v) {
    int i = m.pos(u, v), f = i < 0 ? 0 : m.flag(u, v), nb = gp_IsNeighbor(g, vx(g, u), vx(g, v));
    CHECK(ctx, !!nb == (i >= 0 && f != (int)EDGEFLAG_DIRECTION_INONLY), "query: gp_IsNeighbor(%d,%d) is %d", u, v, nb);
    if (i < 0) CHECK(ctx, gp_IsNotArc(gp_GetNeighborEdgeRecord(g, vx(g, u), vx(g, v))), "query: an edge record is reported for the missing edge %d-%d", u, v);
    else arcOf(ctx, g, m, u, v);
  }
  int in = 0, out = 0; for (int w : m.adj[u]) { int f = m.flag(u, w); in += f != (int)EDGEFLAG_DIRECTION_OUTONLY; out += f != (int)EDGEFLAG_DIRECTION_INONLY; }
  int d = gp_GetVertexDegree(g, vx(g, u)), di = gp_GetVertexInDegree(g, vx(g, u)), dout = gp_GetVertexOutDegree(g, vx(g, u));
  CHECK(ctx, d == (int)m.adj[u].size() && di == in && dout == out, "query: degrees of %d are %d (in %d, out %d), expected %zu (in %d, out %d)", u, d, di, dout, m.adj[u].size(), in, out);
}
void edit(Ctx &ctx, graphP g, Model &m, const Op &op, bool growth) {
  auto arg = [&](size_t i) { return i < op.size() ? std::abs(op[i]) : 0; };
  int n = m.n, cap = gp_GetArcCapacity(g); if (n < 1 || op.empty()) return;
  switch (op[0]) {
    case OP_ADD: case OP_DYN: case OP_INSERT: {
      int u = arg(1) % n, v = arg(2) % n; if (u == v || m.has(u, v)) { ctx.label("op skipped"); return; }
      int ul = arg(3) & 1, vl = arg(4) & 1; bool full = m.m >= cap / 2; int want = full ? NONEMBEDDABLE : OK, rc;
      int pu = ul ? (int)m.adj[u].size() : 0, pv = vl ? (int)m.adj[v].size() : 0;
      if (op[0] == OP_ADD) { rc = gp_AddEdge(g, vx(g, u), ul, vx(g, v), vl); ctx.label(full ? "add refused" : "add"); }
      else if (op[0] == OP_DYN) { rc = gp_DynamicAddEdge(g, vx(g, u), ul, vx(g, v), vl); want = full && !growth ? NOTOK : OK; ctx.label(!full ? "dynamic add" : growth ? "dynamic add with growth" : "dynamic add refused"); }
      else {
        int ku = arg(5) % ((int)m.adj[u].size() + 1), kv = arg(6) % ((int)m.adj[v].size() + 1), eu = NIL, ev = NIL;
        if (ku < (int)m.adj[u].size()) { eu = arcOf(ctx, g, m, u, m.adj[u][ku]); pu = ul ? ku : ku + 1; }
        if (kv < (int)m.adj[v].size()) { ev = arcOf(ctx, g, m, v, m.adj[v][kv]); pv = vl ? kv : kv + 1; }
        rc = gp_InsertEdge(g, vx(g, u), eu, ul, vx(g, v), ev, vl); ctx.label(full ? "insert refused" : "insert");
      }
      static const char *nm[] = {"gp_AddEdge", "gp_DynamicAddEdge", "gp_InsertEdge"};
      CHECK(ctx, rc == want, "model: %s(%d,%d) with %d edges and arc capacity %d returned %d, expected %d", nm[op[0]], u, v, m.m, cap, rc, want);
      if (rc == OK) { m.adj[u].insert(m.adj[u].begin() + pu, v); m.adj[v].insert(m.adj[v].begin() + pv, u); ++m.m; }
      int nc = gp_GetArcCapacity(g); if (rc != OK || op[0] != OP_DYN || !full) CHECK(ctx, nc == cap, "model: %s changed the arc capacity from %d to %d", nm[op[0]], cap, nc); 
      else { CHECK(ctx, nc <= std::max(cap, n * (n - 1)), "model: a dynamic addition raised the arc capacity of a graph of %d vertices from %d to %d", n, cap, nc); CHECK(ctx, nc >= 2 * m.m, "model: gp_DynamicAddEdge left capacity %d for %d edges", nc, m.m); }
      break; }
    case OP_DELETE: {
      auto es = m.edges(); if (es.empty()) { ctx.label("op skipped"); return; } Edge e = es[arg(1) % es.size()]; if (arg(3) & 1) std::swap(e.first, e.second);
      int link = arg(2) & 1, u = e.first, v = e.second, i = m.pos(u, v), j = link ? i - 1 : i + 1, a = arcOf(ctx, g, m, u, v); int want = j < 0 || j >= (int)m.adj[u].size() ? -1 : m.adj[u][j];
      int nx = gp_DeleteEdge(g, a, link);
      CHECK(ctx, want < 0 ? gp_IsNotArc(nx) : gp_IsArc(nx) && gp_GetNeighbor(g, nx) == vx(g, want), "model: gp_DeleteEdge(%d-%d,%d) did not return the %s arc", u, v, link, link ? "previous" : "next");
      m.drop(u, v); m.dir.erase(norm(u, v)); --m.m; ctx.label("delete"); break; }
    case OP_DIR: {
      auto es = m.edges(); if (es.empty()) { ctx.label("op skipped"); return; } Edge e = es[arg(1) % es.size()]; if (arg(3) & 1) std::swap(e.first, e.second);
      static const int fl[] = {0, EDGEFLAG_DIRECTION_INONLY, EDGEFLAG_DIRECTION_OUTONLY}; int f = fl[arg(2) % 3]; int a = arcOf(ctx, g, m, e.first, e.second);
      gp_SetDirection(g, a, f); m.setFlag(e.first, e.second, f); ctx.label("set direction"); break; }
    case OP_ENSURE: {
      int want = arg(1) % (4 * n + 12) - 4; if (arg(2) % 16 == 0) want = -want; if (arg(2) % 16 == 1) want = cap + 2 * (arg(3) % 8); if (arg(2) % 16 == 2) want = cap + 1;
      int rc = gp_EnsureArcCapacity(g, want), nc = gp_GetArcCapacity(g); bool bad = want <= 0 || (want & 1), grow = !bad && want > cap;
      CHECK(ctx, (rc == OK) == !(bad || (grow && !growth)) && (rc == OK || rc == NOTOK), "capacity: ensuring arc capacity %d over %d returned %d", want, cap, rc);
      if (rc == OK) CHECK(ctx, nc >= want && nc >= cap, "capacity: %d after ensuring %d over %d", nc, want, cap); else CHECK(ctx, nc == cap, "capacity: a refused request for %d changed it from %d to %d", want, cap, nc);
      ctx.label(bad ? "ensure refused" : grow ? (growth ? "ensure grows" : "ensure refused with extension") : "ensure satisfied"); break; }
    case OP_QUERY: queries(ctx, g, m, arg(1) % n, arg(2) % n); break;
    default: ctx.label("op skipped");
  }
}
// ---- hide / contract / identify
static void mergeInto(Model &m, int u, int v, std::vector<int> &moved) { // v (not adjacent to u) loses its arcs; moved: those transferred to u, in order
  std::vector<int> vs = m.adj[v];
  for (int w : vs) {
    if (m.has(u, w)) { m.drop(v, w); m.dir.erase(norm(v, w)); }
    else { int f = m.flag(v, w); m.dir.erase(norm(v, w)); m.adj[w][m.pos(w, v)] = u; moved.push_back(w); m.setFlag(u, w, f); }
  }
  m.adj[v].clear();
}
// got must be own (order kept, as a linear list) with moved (order kept) as one contiguous run
static bool isMerge(const std::vector<int> &got, const std::vector<int> &own, const std::vector<int> &moved) {
  if (got.size() != own.size() + moved.size()) return false;
  for (size_t p = 0; p <= own.size(); ++p) { std::vector<int> x = own; x.insert(x.begin() + p, moved.begin(), moved.end()); if (x == got) return true; }
  return false;
}
void hideOp(Ctx &ctx, graphP g, Model &m, HideSim &h, const Op &op, bool) {
  auto arg = [&](size_t i) { return i < op.size() ? std::abs(op[i]) : 0; }; int n = m.n; if (n < 1 || op.empty()) return;
  auto adopt = [&](int u, const std::vector<int> &own, const std::vector<int> &moved, const char *what) { // position of the moved run is the library's choice
    std::vector<int> got; int lim = 4 * m.m + 8; for (int e = gp_GetFirstArc(g, vx(g, u)); gp_IsArc(e) && lim--; e = gp_GetNextArc(g, e)) got.push_back(ix(g, gp_GetNeighbor(g, e)));
    std::string s; for (int x : got) s += " " + std::to_string(x);
    CHECK(ctx, isMerge(got, own, moved), "model: %s: the merged vertex %d has neighbours%s", what, u, s.c_str()); m.adj[u] = got;
  };
  int op0 = op[0];
  if (op0 == OP_RESTORE || op0 == OP_RESTORE_ALL) {
    bool below = false, mix = false; for (auto &x : h.st) { if (x.kind != OP_HIDE_E) below = true; else if (below) mix = true; }
    if (op0 == OP_RESTORE_ALL && below && !mix) { // unwind every vertex operation in one call
      CHECK(ctx, gp_RestoreVertices(g) == OK, "restore: gp_RestoreVertices failed"); size_t i = 0; while (h.st[i].kind == OP_HIDE_E) ++i;
      m = h.st[i].before; h.gone = h.st[i].goneBefore; h.st.resize(i); compare(ctx, g, m, "after gp_RestoreVertices", true); ctx.label("restore vertices");
      CHECK(ctx, sp_IsEmpty(g->theStack), "restore: the stack is not empty after gp_RestoreVertices"); op0 = OP_RESTORE;
      while (!h.st.empty()) { gp_RestoreEdge(g, h.st.back().arc); m = h.st.back().before; h.gone = h.st.back().goneBefore; h.st.pop_back(); }
      compare(ctx, g, m, "after restoring the edges"); return;
    }
    do {
      if (h.st.empty()) return; Hidden &x = h.st.back();
      if (x.kind == OP_HIDE_E) gp_RestoreEdge(g, x.arc); else CHECK(ctx, gp_RestoreVertex(g) == OK, "restore: gp_RestoreVertex failed");
      m = x.before; h.gone = x.goneBefore; h.st.pop_back(); compare(ctx, g, m, "after a restore", true);
    } while (op0 == OP_RESTORE_ALL);
    ctx.label("restore"); return;
  }
  Hidden rec; rec.kind = op0; rec.arc = NIL; rec.before = m; rec.goneBefore = h.gone;
  const char *what = "hide";
  if (op0 == OP_HIDE_E || op0 == OP_CONTRACT) {
    auto es = m.edges(); if (es.empty()) return; Edge e = es[arg(1) % es.size()]; if (arg(2) & 1) std::swap(e.first, e.second);
    int u = e.first, v = e.second, a = arcOf(ctx, g, m, u, v); rec.arc = a;
    if (op0 == OP_HIDE_E) { gp_HideEdge(g, a); m.drop(u, v); m.dir.erase(norm(u, v)); what = "after hiding an edge"; ctx.label("hide edge"); }
    else {
      int rc = gp_ContractEdge(g, a); CHECK(ctx, rc == OK, "contract: contracting %d-%d returned %d", u, v, rc);
      m.drop(u, v); m.dir.erase(norm(u, v)); std::vector<int> moved; mergeInto(m, u, v, moved); adopt(u, m.adj[u], moved, "contract"); h.gone.insert(v); what = "after contracting an edge"; ctx.label("contract");
    }
  } else if (op0 == OP_HIDE_V) {
    int v = arg(1) % n; if (h.gone.count(v)) return; int rc = gp_HideVertex(g, vx(g, v)); CHECK(ctx, rc == OK, "hide: hiding vertex %d returned %d", v, rc);
    while (!m.adj[v].empty()) { m.dir.erase(norm(v, m.adj[v][0])); m.drop(v, m.adj[v][0]); } h.gone.insert(v); what = "after hiding a vertex"; ctx.label("hide vertex");
  } else if (op0 == OP_IDENTIFY) {
    int u = arg(1) % n, v = arg(2) % n; if (u == v || h.gone.count(u) || h.gone.count(v)) return; bool adj = m.has(u, v);
    int k = adj ? (int)m.adj[u].size() : arg(3) % ((int)m.adj[u].size() + 1), before = k < (int)m.adj[u].size() ? arcOf(ctx, g, m, u, m.adj[u][k]) : NIL;
    int rc = gp_IdentifyVertices(g, vx(g, u), vx(g, v), before); CHECK(ctx, rc == OK, "identify: identifying %d with %d returned %d", v, u, rc);
    if (adj) { m.drop(u, v); m.dir.erase(norm(u, v)); }
    std::vector<int> moved; mergeInto(m, u, v, moved); h.gone.insert(v);
    if (adj) adopt(u, m.adj[u], moved, "identify"); else m.adj[u].insert(m.adj[u].begin() + k, moved.begin(), moved.end());
    what = adj ? "after identifying adjacent vertices" : "after identifying vertices"; ctx.label(adj ? "identify adjacent" : "identify");
  } else return;
  h.st.push_back(rec); compare(ctx, g, m, what, true);
}
