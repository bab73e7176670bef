// Resources and faults: failed allocations (X01), failed file operations (X02), life cycles (X03).
#include "sim.h"
#include <unistd.h>
extern "C" {
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
#include "io/strOrFile.h"
int gp_DrawPlanar_RenderToFile(graphP, char *); int gp_DrawPlanar_RenderToString(graphP, char **);
}
static const int extAlg[] = {A_DRAW, A_K33, A_K4, A_K23};
static std::string stripNL(std::string s) { while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }
static std::vector<char> cstr(const std::string &s) { std::vector<char> v(s.begin(), s.end()); v.push_back(0); return v; }
static char *owned(const std::string &t) { mt_pause(true); char *p = dupStr(t); mt_pause(false); return p; } // never fails
static void put(const std::string &p, const std::string &d) { mt_pause(true); spit(p, d); mt_pause(false); }
static std::string got(const std::string &p) { mt_pause(true); std::string s = slurp(p); mt_pause(false); return s; }
static std::string adjTextOf(const Adj &a, bool zero) { int o = zero ? 0 : 1; std::string s = "N=" + std::to_string(a.size()) + "\n"; for (size_t v = 0; v < a.size(); ++v) { s += std::to_string(v + o) + ":"; for (int w : a[v]) s += " " + std::to_string(w + o); s += zero ? " -1\n" : " 0\n"; } return s; }
static std::string textOf(const UG &u, int f) { switch (f) { case 0: return adjTextOf(adjOf(u), true); case 1: return adjTextOf(adjOf(u), false); case 2: return matrixText(u); case 3: return ledaText(u); default: return g6Text(u); } }
static UG smallGraph(Rng &r, int lo, int hi, std::string &kind) { static const Profile ps[] = {P_ANY, P_PLANAR, P_NONPLANAR, P_OUTER, P_BLOCKS, P_SP}; return genGraph(r, ps[r.below(6)], r.range(lo, hi), kind); }

// ------------------------------------------------------------------ X01
// One pass over a scenario with at most one failing allocation. Every step may report failure only if the
// allocation has failed; what a failed step promises to leave alone is checked, and the step is retried.
struct Pass {
  Ctx &ctx; const Case &c; long k; bool reported = false;
  bool ok(int rc, const char *what) { if (rc == OK) return true; CHECK(ctx, rc == NOTOK, "alloc: %s returned %d (allocation %ld fails)", what, rc, k); CHECK(ctx, k && mt_failed(), "alloc: %s failed though no allocation did (failing number %ld)", what, k); reported = true; return false; }
  bool ok(void *p, const char *what) { return ok(p ? OK : NOTOK, what); }
  bool emb(int rc, const char *what) { return rc == NONEMBEDDABLE ? true : ok(rc, what); }
};
static void build(Pass &p, GH &g, const UG &u, int mask, bool pre) { // complete or throws through CHECK; false = reported
  g.g = gp_New(); if (!p.ok(g.g, "gp_New")) return;
  if (u.m() > 3 * u.n) { if (!p.ok(gp_EnsureArcCapacity(g, 2 * u.m()), "gp_EnsureArcCapacity")) CHECK(p.ctx, gp_EnsureArcCapacity(g, 2 * u.m()) == OK, "alloc: gp_EnsureArcCapacity again"); }
  if (pre) for (int i = 0; i < 4; ++i) if (mask >> i & 1) if (!p.ok(attachFor(g, extAlg[i]), "attaching before gp_InitGraph")) { gp_Free(&g.g); return; }
  if (!p.ok(gp_InitGraph(g, u.n), "gp_InitGraph")) { gp_Free(&g.g); return; }
  if (!pre) for (int i = 0; i < 4; ++i) if (mask >> i & 1) if (!p.ok(attachFor(g, extAlg[i]), "attaching an extension")) {
    Model m(u.n); compare(p.ctx, g, m, "after a failed attach"); CHECK(p.ctx, attachFor(g, extAlg[i]) == OK, "alloc: attaching again after a failed allocation fails"); }
  for (auto &e : u.e) CHECK(p.ctx, gp_AddEdge(g, vx(g, e.first), 1, vx(g, e.second), 1) == OK, "alloc: gp_AddEdge failed");
}
static void use(Pass &p, graphP g, const UG &u, int a, const char *what) { mt_pause(true); int res = runAlg(p.ctx, g, a, what); verifyResult(p.ctx, u, a, res, g, what); mt_pause(false); }
static void scenario(Pass &p) {
  Ctx &ctx = p.ctx; const Case &c = p.c; UG u = fromCase(c); int n = u.n, what = c.get("what"), mask = c.get("ext"); bool pre = c.get("pre"); Rng r(c.get("seed"));
  GH g;
  switch (what) {
    case 0: { // build, grow, free
      build(p, g, u, mask & 8, pre); if (!g.g) { build(p, g, u, mask & 8, pre); CHECK(ctx, g.g, "alloc: building again failed"); }
      Model m = modelOf(ctx, g, "built"); int cap = gp_GetArcCapacity(g), want = cap + 2 + 2 * (c.get("seed") % 50);
      if (!p.ok(gp_EnsureArcCapacity(g, want), "gp_EnsureArcCapacity")) { compare(ctx, g, m, "after a failed gp_EnsureArcCapacity"); CHECK(ctx, gp_GetArcCapacity(g) == cap, "alloc: the capacity changed though growing failed"); CHECK(ctx, gp_EnsureArcCapacity(g, want) == OK, "alloc: growing again failed"); }
      CHECK(ctx, gp_GetArcCapacity(g) >= want, "alloc: capacity %d after growing to %d", gp_GetArcCapacity(g), want);
      for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) if (!m.has(a, b)) {
        int rc = gp_DynamicAddEdge(g, vx(g, a), 0, vx(g, b), 0); if (!p.ok(rc, "gp_DynamicAddEdge")) { compare(ctx, g, m, "after a failed gp_DynamicAddEdge"); CHECK(ctx, gp_DynamicAddEdge(g, vx(g, a), 0, vx(g, b), 0) == OK, "alloc: adding again failed"); }
        m.adj[a].insert(m.adj[a].begin(), b); m.adj[b].insert(m.adj[b].begin(), a); ++m.m; }
      compare(ctx, g, m, "complete graph"); use(p, g, edgesOf(m.adj), A_PLANAR, "grown"); break; }
    case 1: { // read
      if (u.m() > 3 * n) mask &= 8;
      int f = c.get("fmt") % 5; bool str = c.get("str") && f != 3; std::string t = textOf(u, f), path = scratchFile("in.txt"); if (!str) put(path, t);
      g.g = gp_New(); if (!p.ok(g.g, "gp_New")) { g.g = gp_New(); CHECK(ctx, g.g, "alloc: gp_New"); }
      for (int i = 0; i < 4; ++i) if (mask >> i & 1) if (!p.ok(attachFor(g, extAlg[i]), "attach")) CHECK(ctx, attachFor(g, extAlg[i]) == OK, "alloc: attaching again");
      auto path2 = cstr(path); int rc = str ? gp_ReadFromString(g, owned(t)) : gp_Read(g, path2.data());
      if (!p.ok(rc, "reading")) { gp_Free(&g.g); g.g = gp_New(); rc = str ? gp_ReadFromString(g, owned(t)) : gp_Read(g, path2.data()); CHECK(ctx, rc == OK, "alloc: reading again failed"); }
      CHECK(ctx, sameEdges(edgesOf(orders(ctx, g, "read")), u), "alloc: reading gave a different graph (failing allocation %ld)", p.k); use(p, g, u, A_PLANAR, "read"); break; }
    case 2: { // duplicates and copies
      build(p, g, u, mask, pre); if (!g.g) { build(p, g, u, mask, pre); CHECK(ctx, g.g, "alloc: building again"); }
      if (c.get("str")) { int res = gp_Embed(g, EMBEDFLAGS_PLANAR); if (!p.emb(res, "gp_Embed")) break; CHECK(ctx, gp_SortVertices(g) == OK, "alloc: sort"); }
      std::string s = snapshot(ctx, g, "original"), s2 = snapshot(ctx, g, "original", false); GH d(gp_DupGraph(g)); if (!p.ok(d.g, "gp_DupGraph")) { CHECK(ctx, snapshot(ctx, g, "original") == s, "alloc: a failed gp_DupGraph changed the graph"); d.g = gp_DupGraph(g); CHECK(ctx, d.g, "alloc: duplicating again failed"); }
      CHECK(ctx, snapshot(ctx, d, "dup", false) == s2, "alloc: the duplicate differs");
      GH e(gp_New()); if (!p.ok(e.g, "gp_New")) break; if (c.get("fmt") & 1) gp_EnsureArcCapacity(e, 2); if (!p.ok(gp_InitGraph(e, n), "gp_InitGraph")) break; if (c.get("fmt") & 2) { int x = r.below(4); if (!p.ok(attachFor(e, extAlg[x]), "attach")) break; if (gp_GetArcCapacity(e) < gp_GetArcCapacity(g)) break; }
      int rc = c.get("fmt") & 4 ? gp_CopyAdjacencyLists(e, g) : gp_CopyGraph(e, g); if (!p.ok(rc, "copying")) { CHECK(ctx, snapshot(ctx, g, "original") == s, "alloc: a failed copy changed the source"); gp_Free(&e.g); break; }
      if (!(c.get("fmt") & 4)) CHECK(ctx, snapshot(ctx, e, "copy", false) == s2, "alloc: the copy differs (failing allocation %ld)", p.k); break; }
    case 3: { // embed, check, sort
      int a = c.get("alg"); build(p, g, u, mask, pre); if (!g.g) break; if (!p.ok(attachFor(g, a), "attach")) CHECK(ctx, attachFor(g, a) == OK, "alloc: attaching again"); GH o(gp_DupGraph(g)); if (!p.ok(o.g, "gp_DupGraph")) break;
      int res = gp_Embed(g, algFlags(a)); if (!p.emb(res, "gp_Embed")) break; int r2 = gp_TestEmbedResultIntegrity(g, o, res); if (r2 != res) { if (!p.ok(r2, "gp_TestEmbedResultIntegrity")) break; }
      if (!p.ok(gp_SortVertices(g), "gp_SortVertices")) break; verifyResult(ctx, u, a, res, g, "embedded"); CHECK(ctx, (res == OK) == expectFree(u, a), "verdict: %s with failing allocation %ld says %d", algName[a], p.k, res); break; }
    case 4: { // write
      build(p, g, u, mask | 1, pre); if (!g.g) break; bool planar = isPlanar(u), emb = c.get("str") && planar; if (emb) { if (!p.emb(gp_Embed(g, EMBEDFLAGS_DRAWPLANAR), "gp_Embed") || !p.ok(gp_SortVertices(g), "gp_SortVertices")) break; }
      std::string s = snapshot(ctx, g, "before"); int md[] = {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6}; int mode = md[c.get("fmt") % 3]; mt_pause(true); std::string expect = writeStr(ctx, g, mode); mt_pause(false);
      for (int again = 0; again < 2; ++again) { char *t = nullptr; if (p.ok(gp_WriteToString(g, &t, mode), "gp_WriteToString")) { CHECK(ctx, t && expect == t, "alloc: gp_WriteToString gave other text (failing allocation %ld)", p.k); free(t); break; } CHECK(ctx, !t, "alloc: a failed gp_WriteToString leaves a string"); CHECK(ctx, !again, "alloc: writing again failed"); CHECK(ctx, snapshot(ctx, g, "after") == s, "alloc: a failed write changed the graph"); }
      std::string path = scratchFile("o.txt"); auto pn = cstr(path); for (int again = 0; again < 2; ++again) { if (p.ok(gp_Write(g, pn.data(), mode), "gp_Write")) { CHECK(ctx, got(path) == expect, "alloc: gp_Write wrote other bytes (failing allocation %ld)", p.k); break; } CHECK(ctx, !again, "alloc: writing again failed"); CHECK(ctx, snapshot(ctx, g, "after") == s, "alloc: a failed write changed the graph"); }
      if (emb && u.m() > 0) { mt_pause(true); char *x = nullptr; gp_DrawPlanar_RenderToString(g, &x); std::string pic = x ? x : ""; free(x); mt_pause(false);
        for (int again = 0; again < 2; ++again) { char *t = nullptr; if (p.ok(gp_DrawPlanar_RenderToString(g, &t), "rendering to a string")) { CHECK(ctx, t && pic == t, "alloc: other rendition"); free(t); break; } CHECK(ctx, !t, "alloc: a failed rendition leaves a string"); CHECK(ctx, !again, "alloc: rendering again failed"); }
        for (int again = 0; again < 2; ++again) { if (p.ok(gp_DrawPlanar_RenderToFile(g, pn.data()), "rendering to a file")) { CHECK(ctx, got(path) == pic, "alloc: other rendition in the file"); break; } CHECK(ctx, !again, "alloc: rendering again failed"); } }
      break; }
    case 5: { // .g6 read iterator
      std::vector<UG> us; std::string t = c.get("pre") ? ">>graph6<<" : ""; for (int i = 0; i < 3; ++i) { us.push_back(i ? gGnm(r, n, r.below(std::min(3 * n, n * (n - 1) / 2) + 1)) : u); t += g6Text(us.back()); }
      bool str = c.get("str"); std::string path = scratchFile("in.g6"); put(path, t); g.g = gp_New(); if (!p.ok(g.g, "gp_New")) break; G6ReadIterator *it = nullptr; if (!p.ok(allocateG6ReadIterator(&it, g), "allocateG6ReadIterator")) { CHECK(ctx, !it, "alloc: an iterator remains"); break; }
      auto pn = cstr(path); int rc = str ? beginG6ReadIterationFromG6String(it, owned(t)) : beginG6ReadIterationFromG6FilePath(it, pn.data());
      if (p.ok(rc, "beginning the iteration")) { size_t i = 0; for (;; ++i) { rc = readGraphUsingG6ReadIterator(it); if (!p.ok(rc, "reading the next graph")) break; if (!it->currGraph) break; CHECK(ctx, i < us.size() && sameEdges(edgesOf(orders(ctx, g, "graph")), us[i]), "alloc: graph %zu is wrong (failing allocation %ld)", i, p.k); } if (rc == OK) CHECK(ctx, i == us.size(), "alloc: only %zu graphs delivered, no failure reported (failing allocation %ld)", i, p.k); p.ok(endG6ReadIteration(it), "ending the iteration"); }
      CHECK(ctx, freeG6ReadIterator(&it) == OK && !it, "alloc: freeing the iterator"); break; }
    case 6: { // .g6 write iterator
      build(p, g, u, 0, false); if (!g.g) break; G6WriteIterator *it = nullptr; if (!p.ok(allocateG6WriteIterator(&it, g), "allocateG6WriteIterator")) { CHECK(ctx, !it, "alloc: an iterator remains"); break; }
      bool str = c.get("str"); char *out = nullptr; std::string path = scratchFile("out.g6"); auto pn = cstr(path); int rc = str ? beginG6WriteIterationToG6String(it, &out) : beginG6WriteIterationToG6FilePath(it, pn.data()); bool good = p.ok(rc, "beginning the iteration"); std::string line = g6Text(u);
      for (int i = 0; good && i < 3; ++i) good = p.ok(writeGraphUsingG6WriteIterator(it), "writing a graph");
      std::string res; if (good) { if (str) { out = it->g6Output ? sf_takeTheStr(it->g6Output) : nullptr; CHECK(ctx, out, "alloc: no string"); res = out; free(out); out = nullptr; } good = p.ok(endG6WriteIteration(it), "ending the iteration"); }
      CHECK(ctx, freeG6WriteIterator(&it) == OK && !it, "alloc: freeing the iterator"); if (good && !str) res = got(path); if (good) CHECK(ctx, stripNL(res) == stripNL(">>graph6<<" + line + line + line), "alloc: the written text is wrong (failing allocation %ld)", p.k); break; }
  }
}
static Reg x01({"X01", "A scenario (build and grow, read in 5 formats from file or string, duplicate and copy with extensions, embed with each of six algorithms and check, write and render, iterate over g6 input or output) on a graph of 1-30 vertices is run once, then once more for every memory allocation it makes (a sample of 80 when there are more), with that allocation failing. Each failing step must say so, leave what it should not touch unchanged and succeed when retried; nothing may leak, crash or be released twice. One evaluation is one pass. Non-trivial: at least 10 allocations and at least 5 reported failures.",
  [](Rng &r, Case &c, bool th) { std::string kind; UG u = smallGraph(r, 1, r.chance(1, 4) ? 30 : 9, kind); if (u.n > 60) u = gCycle(9); present(r, u, c); c.kind = kind; c.p["what"] = r.below(7); c.p["ext"] = r.chance(1, 2) ? 0 : r.below(16); c.p["pre"] = r.below(2); c.p["fmt"] = r.below(15); c.p["str"] = r.below(2); c.p["alg"] = r.below(A_COUNT); c.p["seed"] = (long)(r.next() >> 20); (void)th; },
  [](const Case &c, Ctx &ctx) {
    static const char *nm[] = {"build", "read", "copy", "embed", "write", "read iterator", "write iterator"}; long total = 0, rep = 0; if (c.get("n") < 1) return; ctx.label(nm[c.get("what") % 7]);
    auto pass = [&](long k) { mt_begin(); mt_failAt(k); Pass p{ctx, c, k}; scenario(p); long cnt = mt_allocCount(); std::string l = mt_end(); CHECK(ctx, l.empty(), "leak: with failing allocation %ld: %s", k, l.c_str()); rep += p.reported; ctx.evals++; return cnt; };
    total = pass(0); std::vector<long> ks; Rng r(c.get("seed") ^ 77); if (total <= 80) for (long k = 1; k <= total; ++k) ks.push_back(k); else { for (long k = 1; k <= 20; ++k) ks.push_back(k); for (long k = total - 19; k <= total; ++k) ks.push_back(k); for (int i = 0; i < 40; ++i) ks.push_back(1 + r.below((int)total)); }
    for (long k : ks) pass(k); mt_begin(); ctx.label("failing allocations", (long)ks.size()); ctx.label("reported", rep); ctx.nontrivial = total >= 10 && rep >= 5;
  }, 1500, 15000, 120, true, 8, false, {"what", "alg"}});

// ------------------------------------------------------------------ X02
static Reg x02({"X02", "Reading (4 formats, read iterator), writing (3 formats, drawing data, debug form, write iterator) and rendering of a graph of 1-40 vertices through streams that fail: the open fails, every transfer fails after the k-th byte, the close fails, with stdio buffers of 1-512 bytes, the default or none; half of the files read cannot be repositioned (pipes); the path may be a directory or missing. The operation must report failure (or, when reading, have the complete graph), leave the graph as it was, leak no memory and leave no stream open, and the next operation must work. Non-trivial: the planned failure happened and at least 20 bytes were to be moved.",
  [](Rng &r, Case &c, bool) { std::string kind; UG u = smallGraph(r, 1, r.chance(1, 4) ? 40 : 9, kind); if (u.n > 90) u = gCycle(9); present(r, u, c); c.kind = kind; c.p["op"] = r.below(6); c.p["fmt"] = r.below(12); c.p["fail"] = r.below(8); c.p["buf"] = r.chance(1, 3) ? -1 : r.chance(1, 2) ? r.range(0, 3) : r.range(0, 512); c.p["at"] = r.below(1001); c.p["emb"] = r.below(2); c.p["seed"] = (long)(r.next() >> 20); c.p["pipe"] = r.below(2); },
  [](const Case &c, Ctx &ctx) {
    UG u = fromCase(c); int n = u.n, op = c.get("op"), fmt = c.get("fmt"), fk = c.get("fail"); if (n < 1) return; Rng r(c.get("seed")); std::string path = scratchFile("f.txt"); bool reading = op < 2; static const char *nm[] = {"read", "read iterator", "write", "write drawing", "render", "write iterator"}; ctx.label(nm[op]);
    GH g; std::string text; std::vector<UG> us{u}; bool draw = op == 3 || op == 4; int md[] = {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6, WRITE_DEBUGINFO}, mode = op == 3 ? WRITE_ADJLIST : md[fmt % 4];
    if (op == 0) text = textOf(u, fmt % 5);
    else if (op == 1) { text = fmt & 1 ? ">>graph6<<" : ""; text += g6Text(u); for (int i = r.below(4); i > 0; --i) { us.push_back(gGnm(r, n, r.below(std::min(3 * n, n * (n - 1) / 2) + 1))); text += g6Text(us.back()); } if (fmt & 2) text.pop_back(); }
    else { g.g = buildGraph(ctx, u); if (draw || c.get("emb")) { if (!isPlanar(u)) { if (draw) return; } else { CHECK(ctx, attachFor(g, A_DRAW) == OK, "setup: attach"); int res = gp_Embed(g, EMBEDFLAGS_DRAWPLANAR); CHECK(ctx, res == OK && gp_SortVertices(g) == OK, "setup: embed"); } } if (op == 4 && u.m() == 0) return; }
    auto perform = [&](const std::string &where, std::vector<Adj> *seen) -> int { // the operation itself
      auto pn = cstr(where);
      switch (op) {
        case 0: return gp_Read(g, pn.data());
        case 1: { G6ReadIterator *it = nullptr; int rc = allocateG6ReadIterator(&it, g); CHECK(ctx, rc == OK, "setup: iterator"); rc = beginG6ReadIterationFromG6FilePath(it, pn.data()); if (rc == OK) { while ((rc = readGraphUsingG6ReadIterator(it)) == OK && it->currGraph) seen->push_back(orders(ctx, g, "graph")); int e = endG6ReadIteration(it); if (rc == OK) rc = e; } CHECK(ctx, freeG6ReadIterator(&it) == OK, "io: freeing the iterator failed"); return rc; }
        case 2: case 3: return gp_Write(g, pn.data(), mode);
        case 4: return gp_DrawPlanar_RenderToFile(g, pn.data());
        default: { G6WriteIterator *it = nullptr; int rc = allocateG6WriteIterator(&it, g); CHECK(ctx, rc == OK, "setup: iterator"); rc = beginG6WriteIterationToG6FilePath(it, pn.data()); for (int i = 0; i < 3 && rc == OK; ++i) rc = writeGraphUsingG6WriteIterator(it); int e = endG6WriteIteration(it); if (rc == OK) rc = e; CHECK(ctx, freeG6WriteIterator(&it) == OK, "io: freeing the iterator failed"); return rc; }
      }
    };
    auto same = [&](const std::vector<Adj> &seen) { if (seen.size() != us.size()) return false; for (size_t i = 0; i < us.size(); ++i) if (!sameEdges(edgesOf(seen[i]), us[i])) return false; return true; };
    bool pipe = op == 0 && c.get("pipe"); if (pipe) ctx.label("not seekable"); IoPlan dry; dry.buffer = c.get("buf"); dry.seekable = !pipe; std::vector<Adj> seen; std::string expect, snap;
    if (reading) { spit(path, text); g.g = gp_New(); }
    mt_io(&dry); int rc = perform(path, &seen); long moved = mt_ioMoved(); mt_io(nullptr); CHECK(ctx, rc == OK, "io: %s fails (%d) on a good stream", nm[op], rc);
    if (op == 0) { seen.push_back(orders(ctx, g, "read")); } if (reading) { CHECK(ctx, same(seen), "io: %s gave a different graph", nm[op]); gp_Free(&g.g); g.g = gp_New(); } else { expect = slurp(path); snap = snapshot(ctx, g, "before"); CHECK(ctx, !expect.empty(), "io: nothing written"); }
    IoPlan pl; pl.buffer = c.get("buf"); pl.seekable = !pipe; std::string where = path; seen.clear(); bool real = false;
    switch (fk) { case 0: pl.open = pipe ? 1 + r.below(2) : 1; break; case 1: if (reading) pl.bytes = 0; else pl.close = 1; break; case 2: real = true; where = r.below(2) ? scratchFile("") : scratchFile("missing/f.txt"); if (reading && where.back() == '/') where = scratchFile("missing/f.txt"); break; case 3: pl.bytes = std::max(0L, moved - 1 - r.below(3)); break; case 4: pl.bytes = r.below(4); break; default: pl.bytes = (moved - 1) * c.get("at") / 1000; }
    mt_io(&pl); rc = perform(where, &seen); bool failed = mt_ioFailed() || real; mt_io(nullptr);
    CHECK(ctx, mt_openFiles() == 0, "io: %s left a stream open after a failure", nm[op]);
    CHECK(ctx, rc == OK || rc == NOTOK, "io: %s returned %d", nm[op], rc); CHECK(ctx, rc == OK || failed, "io: %s failed though the stream did not", nm[op]);
    if (failed && rc == OK) {
      if (op == 0) { seen.push_back(orders(ctx, g, "read")); } 
      CHECK(ctx, reading && !real && pl.open == 0 && same(seen), "io: %s reported success though %s (%ld of %ld bytes, buffer %ld)", nm[op], real ? "the path cannot be opened" : pl.open ? "the open failed" : pl.close ? "the close failed" : "the stream failed", pl.bytes, moved, pl.buffer); }
    if (op == 1 && failed) { CHECK(ctx, seen.size() <= us.size(), "io: more graphs than in the file"); for (size_t i = 0; i < seen.size(); ++i) CHECK(ctx, sameEdges(edgesOf(seen[i]), us[i]), "io: a damaged graph was delivered as good"); }
    if (!reading) { CHECK(ctx, snapshot(ctx, g, "after") == snap, "io: a failed %s changed the graph", nm[op]); CHECK(ctx, perform(path, &seen) == OK && slurp(path) == expect, "io: %s does not work after a failure", nm[op]); }
    else { gp_Free(&g.g); g.g = gp_New(); seen.clear(); CHECK(ctx, perform(path, &seen) == OK, "io: %s does not work after a failure", nm[op]); if (op == 0) seen.push_back(orders(ctx, g, "read")); CHECK(ctx, same(seen), "io: %s gives a different graph after a failure", nm[op]); }
    ctx.label(failed ? (rc == OK ? "failed but complete" : "failure reported") : "no failure"); if (pl.bytes >= 0) ctx.label("transfer failure"); ctx.nontrivial = failed && moved >= 20;
  }, 30000, 300000, 60, true, 32, false, {"op"}});

// ------------------------------------------------------------------ X03
static const char *bad[] = {"", "N=", "N=3\n0: 1", "3\n01", "x", ">>graph6<<", "LEDA.GRAPH\nvoid\n", "~", "D", "N=2\n0: 1 -1\n1: 0 -1\n<DrawPlanar>\n0: 9\n", "N=3\n1: 2 0\n2: 1 4 0\n3: 0\n", "2\n2\n", "A\x01\n", "N=-1\n", "0\n"};
static Reg x03({"X03", "Programs of 3-60 steps (120 in thorough mode) over four graph objects, a read and a write iterator: create, initialise, read good and malformed text in all formats, generate, edit, attach and detach, embed, check, draw, render, write to strings and files, duplicate, copy, iterate partly or wholly, reinitialise, free in any order (twice, null); then everything left is released. A ledger of all allocations and streams of the library must be empty at the end; ASan/UBSan watch every access. Non-trivial: at least 10 effective steps of at least 6 kinds.",
  [](Rng &r, Case &c, bool th) { c.kind = "program"; c.p["seed"] = (long)(r.next() >> 20); for (int k = r.range(3, r.chance(1, 2) ? (th ? 120 : 60) : 25); k > 0; --k) { Op o{r.chance(1, 6) ? 5 : r.below(22)}; for (int i = 0; i < 5; ++i) o.push_back(r.below(1 << 12)); c.items.push_back(o); } },
  [](const Case &c, Ctx &ctx) {
    struct Slot { graphP g = nullptr; bool init = false, ran = false, junk = false; } s[4]; G6ReadIterator *rd = nullptr; G6WriteIterator *wr = nullptr; int rdg = -1, wrg = -1; std::set<int> kinds; int eff = 0; std::string path = scratchFile("x.txt"); auto pn = cstr(path); char *wrStr = nullptr; bool wrIsStr = false;
    auto endW = [&] { if (!wr) return; endG6WriteIteration(wr); if (wrIsStr && wr->g6Output) { char *t = sf_takeTheStr(wr->g6Output); free(t); } freeG6WriteIterator(&wr); wrg = -1; wrStr = nullptr; };
    auto endR = [&] { if (!rd) return; freeG6ReadIterator(&rd); rdg = -1; };
    for (auto &o : c.items) {
      if (o.size() < 6) continue; auto A = [&](int i) { return std::abs(o[i]); }; Slot &x = s[A(1) % 4], &y = s[A(2) % 4]; int xi = A(1) % 4; Rng r(A(3) + 7 * A(4) + c.get("seed")); std::string kind; bool did = true; int k = o[0];
      auto fill = [&](Slot &z) { if (!z.g) { z = Slot(); z.g = gp_New(); } if (z.init) gp_ReinitializeGraph(z.g); else { if (gp_InitGraph(z.g, 1 + A(3) % 9) != OK) return; z.init = true; } z.ran = z.junk = false; UG u = gGnm(r, z.g->N, r.below(std::min(z.g->N * (z.g->N - 1) / 2, 3 * z.g->N) + 1)); for (auto &e : u.e) gp_AddEdge(z.g, vx(z.g, e.first), A(4) & 1, vx(z.g, e.second), A(4) >> 1 & 1); };
      auto ready = [&](Slot &z) { if (!z.g || !z.init) return false; if (z.ran) fill(z); return true; };
      if ((rdg == xi || wrg == xi) && k != 15 && k != 16 && k != 17 && k != 18 && k != 6) { if (k == 1 || k == 3 || k == 4 || k == 5) continue; }
      if (rd && rdg == xi && rd->numGraphsRead == 0 && k != 13 && k < 15) continue; // nothing may happen to the graph between begin and the first read
      if (rd && rdg == xi && rd->numGraphsRead == 0 && k > 18) continue;
      switch (k) {
        case 0: if (!x.g) { x.g = gp_New(); x.init = x.ran = x.junk = false; CHECK(ctx, x.g, "setup: gp_New"); } else did = false; break;
        case 1: if (x.g) { gp_Free(&x.g); CHECK(ctx, !x.g, "lifecycle: gp_Free left the pointer"); x = Slot(); } gp_Free(&x.g); break;
        case 2: if (x.g && !x.init) { if (A(3) % 4 == 0) gp_EnsureArcCapacity(x.g, 2 + 2 * (A(4) % 30)); x.init = gp_InitGraph(x.g, 1 + A(3) % 12) == OK; } else did = false; break;
        case 3: { if (!x.g || x.init) { if (x.g) gp_Free(&x.g); x = Slot(); x.g = gp_New(); if (A(5) & 1) attachFor(x.g, A_DRAW); } std::string kd; UG u = smallGraph(r, 1, 9, kd); std::string t = textOf(u, A(4) % 5); int rc; void *ext = nullptr; gp_FindExtension(x.g, DRAWPLANAR_ID, &ext); if (A(5) & 2 && A(4) % 5 != 3) rc = readStr(x.g, t); else rc = readFile(x.g, t, "in.txt"); CHECK(ctx, rc == OK || (ext && u.m() > 3 * u.n), "lifecycle: reading failed (%d) %s", rc, t.c_str()); if (rc != OK) { gp_Free(&x.g); x = Slot(); break; } x.init = true; break; }
        case 4: { if (!x.g || x.init) { if (x.g) gp_Free(&x.g); x = Slot(); x.g = gp_New(); if (A(5) & 1) attachFor(x.g, extAlg[A(5) % 4]); } std::string t = bad[A(4) % (sizeof bad / sizeof *bad)]; if (A(5) & 2) readStr(x.g, t); else readFile(x.g, t, "bad.txt"); gp_Free(&x.g); x = Slot(); break; }
        case 5: fill(x); did = x.g; break;
        case 6: case 7: if (ready(x)) { for (int i = 0; i < 6; ++i) { int n = x.g->N, a = r.below(n), b = r.below(n); if (a != b && !gp_IsNeighbor(x.g, vx(x.g, a), vx(x.g, b)) && gp_IsNotArc(gp_GetNeighborEdgeRecord(x.g, vx(x.g, a), vx(x.g, b)))) gp_DynamicAddEdge(x.g, vx(x.g, a), r.below(2), vx(x.g, b), r.below(2)); else if (a != b) { int e = gp_GetNeighborEdgeRecord(x.g, vx(x.g, a), vx(x.g, b)); if (gp_IsArc(e) && r.below(3) == 0 && !(x.junk)) gp_DeleteEdge(x.g, e, r.below(2)); } } } else did = false; break;
        case 8: if (x.g) attachFor(x.g, extAlg[A(3) % 4]); else did = false; break;
        case 9: if (x.g) { int ids[] = {DRAWPLANAR_ID, K23SEARCH_ID, K33SEARCH_ID, K4SEARCH_ID}; int id = ids[A(3) % 4]; if (id) CHECK(ctx, gp_RemoveExtension(x.g, id) == OK, "lifecycle: detaching"); } else did = false; break;
        case 10: case 11: case 12: if (ready(x)) { int a = A(3) % A_COUNT; if (attachFor(x.g, a) != OK) ctx.fail("lifecycle: attach"); GH d(gp_DupGraph(x.g)); CHECK(ctx, d.g, "lifecycle: dup"); int res = gp_Embed(x.g, algFlags(a)); x.ran = true; CHECK(ctx, res == OK || res == NONEMBEDDABLE || (a == A_DRAW && sp_NonEmpty(d->edgeHoles)), "lifecycle: %s returned %d", algName[a], res); x.junk = res == NOTOK || !contentDefined(a, res); if (res != NOTOK) { CHECK(ctx, gp_TestEmbedResultIntegrity(x.g, d, res) == res, "lifecycle: integrity"); gp_SortVertices(x.g); } if (res == OK && a == A_DRAW && x.g->M) { char *t = nullptr; CHECK(ctx, gp_DrawPlanar_RenderToString(x.g, &t) == OK && t, "lifecycle: render"); free(t); CHECK(ctx, gp_DrawPlanar_RenderToFile(x.g, pn.data()) == OK, "lifecycle: render to file"); } ctx.label(std::string("embed ") + algName[a]); } else did = false; break;
        case 13: if (x.g && x.init && !x.junk) { int md[] = {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6, WRITE_DEBUGINFO}, m = md[A(3) % 4]; if (A(4) & 1 && m != WRITE_DEBUGINFO) { char *t = nullptr; int rc = gp_WriteToString(x.g, &t, m); CHECK(ctx, rc == OK && t, "lifecycle: write to string returned %d", rc); free(t); } else CHECK(ctx, gp_Write(x.g, pn.data(), m) == OK, "lifecycle: write"); } else did = false; break;
        case 14: if (x.g && x.init && &x != &y && A(2) % 4 != rdg && A(2) % 4 != wrg) { if (y.g) gp_Free(&y.g); y = Slot(); y.g = gp_DupGraph(x.g); CHECK(ctx, y.g, "lifecycle: dup"); y.init = true; y.ran = x.ran; y.junk = x.junk; } else did = false; break;
        case 15: if (!rd && x.g && xi != wrg) { if (x.init) { if (A(5) & 1) { did = false; break; } gp_Free(&x.g); x = Slot(); x.g = gp_New(); } int n = 1 + A(3) % 9; std::string t = A(4) & 1 ? ">>graph6<<" : ""; for (int i = 1 + A(4) % 3; i > 0; --i) t += g6Text(gGnm(r, n, r.below(n * (n - 1) / 2 + 1))); if (A(5) % 5 == 0) t += "!!\n"; CHECK(ctx, allocateG6ReadIterator(&rd, x.g) == OK, "lifecycle: iterator"); int rc; if (A(5) & 2) rc = beginG6ReadIterationFromG6String(rd, dupStr(t)); else { spit(path, t); rc = beginG6ReadIterationFromG6FilePath(rd, pn.data()); } CHECK(ctx, rc == OK, "lifecycle: begin"); rdg = xi; x.init = true; x.ran = x.junk = false; } else did = false; break;
        case 16: if (rd) { int rc = readGraphUsingG6ReadIterator(rd); if (rc != OK || !rd->currGraph) { endR(); } else { s[rdg].ran = s[rdg].junk = false; orders(ctx, s[rdg].g, "iterated"); } } else did = false; break;
        case 17: if (rd) { if (A(3) & 1) endG6ReadIteration(rd); endR(); } else if (wr) endW(); else did = false; break;
        case 18: if (!wr && x.g && x.init && !x.junk && xi != rdg) { CHECK(ctx, allocateG6WriteIterator(&wr, x.g) == OK, "lifecycle: write iterator"); wrIsStr = A(3) & 1; int rc = wrIsStr ? beginG6WriteIterationToG6String(wr, &wrStr) : beginG6WriteIterationToG6FilePath(wr, pn.data()); CHECK(ctx, rc == OK, "lifecycle: begin"); wrg = xi; } else if (wr && !s[wrg].junk) { CHECK(ctx, writeGraphUsingG6WriteIterator(wr) == OK, "lifecycle: write graph"); if (A(3) % 4 == 0) endW(); } else did = false; break;
        case 19: if (x.g && x.init && y.g && y.init && &x != &y && x.g->N == y.g->N && A(2) % 4 != wrg && !(rd && rdg == A(2) % 4 && rd->numGraphsRead == 0)) { int rc = gp_CopyGraph(y.g, x.g); CHECK(ctx, rc == OK || gp_GetArcCapacity(y.g) < gp_GetArcCapacity(x.g), "lifecycle: copy"); if (rc == OK) { y.ran = x.ran; y.junk = x.junk; } } else did = false; break;
        case 20: if (x.g && x.init && xi != wrg) { gp_ReinitializeGraph(x.g); x.ran = x.junk = false; if (A(3) & 1) { int rc = gp_CreateRandomGraph(x.g); CHECK(ctx, rc == OK || gp_GetArcCapacity(x.g) / 2 < x.g->N, "lifecycle: random graph returned %d", rc); if (rc != OK) gp_ReinitializeGraph(x.g); } } else did = false; break;
        case 21: if (ready(x)) { Model m = modelOf(ctx, x.g, "x"); HideSim h; GH d(gp_DupGraph(x.g)); for (int i = 0; i < 3; ++i) { int op = OP_HIDE_E + r.below(3); hideOp(ctx, d, m, h, randomEdit(r, op)); } if (A(3) & 1) hideOp(ctx, d, m, h, {OP_RESTORE_ALL}); } else did = false; break;
      }
      if (did) { ++eff; kinds.insert(k); }
    }
    endR(); endW(); for (int i = 0; i < 4; ++i) { int j = (i * 3 + (int)(c.get("seed") % 4)) % 4; gp_Free(&s[j].g); CHECK(ctx, !s[j].g, "lifecycle: gp_Free left the pointer"); }
    ctx.nontrivial = eff >= 10 && kinds.size() >= 6;
  }, 40000, 500000, 60, false, 32, false, {}});
