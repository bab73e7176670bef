// Embedding, obstruction and homeomorph search properties (E01-E07).
#include "lib.h"
static void genFor(Rng &r, Case &c, bool th, const std::vector<std::pair<Profile,int>> &mix, int cap = 1000) {
  int tot = 0; for (auto &x : mix) tot += x.second; int k = r.below(tot); Profile p = mix[0].first;
  for (auto &x : mix) { if (k < x.second) { p = x.first; break; } k -= x.second; }
  UG g = genGraph(r, p, pickSize(r, th, cap), c.kind);
  present(r, g, c);
}
static void embedCase(const Case &c, Ctx &ctx, int a, bool nontrivialIf(const UG &, int)) {
  UG in = fromCase(c); labelGraph(ctx, in); GH g(buildGraph(ctx, in));
  int res = runAlg(ctx, g, a, "run", true);
  verifyResult(ctx, in, a, res, g, "run");
  bool want = expectFree(in, a); CHECK(ctx, (res == OK) == want, "verdict: %s search/embedding says %s, the graph %s", algName[a], res == OK ? "OK" : "NONEMBEDDABLE", want ? "is free of obstructions" : "has an obstruction");
  ctx.nontrivial = nontrivialIf(in, res); ctx.evals++;
}
#define COMMON "Graphs of 1-160 (thorough: 900) vertices from ~40 families (random, triangulations and thinned/subdivided/composed variants, outerplanar, series-parallel, Kuratowski subdivisions in planar surroundings, 1-sums/2-sums of K5/K33/K4 pieces, dense, sparse, disconnected), random vertex numbering, edge order and direction. "
static Reg e01({"E01", COMMON "Non-trivial: planar, at least 6 vertices, at least as many edges as vertices.",
  [](Rng &r, Case &c, bool th) { genFor(r, c, th, {{P_PLANAR, 14}, {P_OUTER, 2}, {P_SP, 2}, {P_SPARSE, 1}, {P_ANY, 1}, {P_NONPLANAR, 2}}); },
  [](const Case &c, Ctx &x) { embedCase(c, x, A_PLANAR, [](const UG &g, int r) { return r == OK && g.n >= 6 && g.m() >= g.n; }); }, 120000, 1500000, 60, true});
static Reg e02({"E02", COMMON "Non-trivial: non-planar.",
  [](Rng &r, Case &c, bool th) { genFor(r, c, th, {{P_NONPLANAR, 12}, {P_K5SUM, 5}, {P_ANY, 3}, {P_PLANAR, 2}}); },
  [](const Case &c, Ctx &x) { embedCase(c, x, A_PLANAR, [](const UG &, int r) { return r == NONEMBEDDABLE; }); }, 120000, 1500000, 60, true});
static Reg e03({"E03", COMMON "Non-trivial: outerplanar, at least 6 vertices, with a cycle.",
  [](Rng &r, Case &c, bool th) { genFor(r, c, th, {{P_OUTER, 14}, {P_SPARSE, 2}, {P_SP, 1}, {P_PLANAR, 1}, {P_BLOCKS, 1}}); },
  [](const Case &c, Ctx &x) { embedCase(c, x, A_OUTER, [](const UG &g, int r) { return r == OK && g.n >= 6 && g.m() >= g.n; }); }, 120000, 1500000, 60, true});
static Reg e04({"E04", COMMON "Non-trivial: not outerplanar.",
  [](Rng &r, Case &c, bool th) { genFor(r, c, th, {{P_OUTER, 6}, {P_BLOCKS, 6}, {P_SP, 6}, {P_PLANAR, 5}, {P_NONPLANAR, 3}, {P_SPARSE, 3}, {P_ANY, 2}}); },
  [](const Case &c, Ctx &x) { embedCase(c, x, A_OUTER, [](const UG &, int r) { return r == NONEMBEDDABLE; }); }, 120000, 1500000, 60, true});
static bool notOuter(const UG &g, int) { return !isOuterplanar(g); }
static Reg e05({"E05", COMMON "Weighted towards chains of K4 and outerplanar blocks. Non-trivial: not outerplanar (so that the search must look past an obstruction or find K2,3).",
  [](Rng &r, Case &c, bool th) { genFor(r, c, th, {{P_BLOCKS, 14}, {P_OUTER, 3}, {P_SP, 3}, {P_PLANAR, 2}, {P_NONPLANAR, 2}, {P_ANY, 3}}, 400); },
  [](const Case &c, Ctx &x) { embedCase(c, x, A_K23, notOuter); }, 150000, 1500000, 60, true});
static Reg e06({"E06", COMMON "Weighted towards 2-sums of K5 with planar and K5 pieces. Non-trivial: non-planar (so that the search must look past K5 obstructions or find K3,3).",
  [](Rng &r, Case &c, bool th) { genFor(r, c, th, {{P_K5SUM, 14}, {P_NONPLANAR, 8}, {P_ANY, 3}, {P_PLANAR, 2}}, 400); },
  [](const Case &c, Ctx &x) { embedCase(c, x, A_K33, [](const UG &g, int) { return !isPlanar(g); }); }, 150000, 1200000, 60, true});
static Reg e07({"E07", COMMON "Weighted towards series-parallel graphs with and without extra edges. Non-trivial: not outerplanar (so that the search must look past K2,3 obstructions or find K4).",
  [](Rng &r, Case &c, bool th) { genFor(r, c, th, {{P_SP, 14}, {P_BLOCKS, 3}, {P_OUTER, 2}, {P_PLANAR, 3}, {P_NONPLANAR, 2}, {P_ANY, 2}}); },
  [](const Case &c, Ctx &x) { embedCase(c, x, A_K4, notOuter); }, 150000, 1500000, 60, true});
