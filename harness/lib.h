// Thin adaptor over the public interface of the library under test.
#pragma once
#include "engine.h"
#include "gen.h"
#include "memtrack.h"
#include <array>
#include <exception>
// The extension list node is opaque here; its header is not valid C++.
#define GRAPH_EXTENSIONS_PRIVATE_H
#include "extensionSystem/graphFunctionTable.h"
typedef struct graphExtension graphExtension; typedef graphExtension *graphExtensionP;
extern "C" {
#include "graphLib.h"
extern int DRAWPLANAR_ID, K23SEARCH_ID, K33SEARCH_ID, K4SEARCH_ID;
}
#undef MIN
#undef MAX
#undef MIN3
#undef MAX3
enum Alg { A_PLANAR, A_OUTER, A_DRAW, A_K23, A_K33, A_K4, A_COUNT };
extern const char *algName[A_COUNT];
int algFlags(int a);
int attachFor(graphP g, int a);

struct GH { // owner of a graph object; does not free while a failure propagates
  graphP g = nullptr;
  GH() {}
  explicit GH(graphP p) : g(p) {}
  GH(const GH &) = delete;
  GH &operator=(const GH &) = delete;
  ~GH() { if (g && !std::uncaught_exceptions()) gp_Free(&g); }
  operator graphP() const { return g; }
  graphP operator->() const { return g; }
};
inline int vx(graphP g, int v) { return v + gp_GetFirstVertex(g); }   // 0-based -> index
inline int ix(graphP g, int v) { return v - gp_GetFirstVertex(g); }
graphP newGraph(Ctx &, int n, int arcCapacity = 0);
graphP buildGraph(Ctx &, const UG &g, int extraArcs = 0);            // edges in order, inserted at list heads
void addAll(Ctx &, graphP g, const UG &u);
Adj orders(Ctx &, graphP g, const char *what);                        // checks list integrity on the way
Adj ordersX(Ctx &, graphP g, const char *what, bool checkM);
UG edgesOf(const Adj &a);
std::string adjText(const Adj &a);
bool sameEdges(const UG &a, const UG &b);
// Verifies outcome of algorithm a on input in, with the vertices of g back in original order.
void verifyResult(Ctx &, const UG &in, int a, int result, graphP g, const char *what);
// attach, embed, integrity check, restore order; returns the result
int runAlg(Ctx &, graphP g, int a, const char *what, bool integrity = true);
// drawing coordinates
struct Drawing { std::vector<std::array<int,3>> v; std::vector<std::array<int,3>> e; std::vector<Edge> ev; bool ok = false; };
Drawing drawingOf(graphP g);
void verifyDrawing(Ctx &, graphP g, const Drawing &d, const char *what);
void verifyDrawingData(Ctx &, int n, int m, const Drawing &d, const char *what);
void checkRendition(Ctx &, const UG &in, const Drawing &d, const std::string &text, int off);
std::string writeStr(Ctx &, graphP g, int mode, int *rc = nullptr);
std::string writeFile(Ctx &, graphP g, int mode, int *rc = nullptr, const char *name = "out.txt");
std::string slurp(const std::string &path);
void spit(const std::string &path, const std::string &data);
std::string scratchFile(const char *name);                             // per-process scratch path
bool expectFree(const UG &g, int a);                                   // oracle verdict: true = OK expected
void labelGraph(Ctx &, const UG &g);
std::string adjListText(const UG &g, bool zero);
std::string ledaText(const UG &g);
std::string matrixText(const UG &g);
std::string g6Text(const UG &g);
char *dupStr(const std::string &t);                                    // for interfaces that take ownership
int readStr(graphP g, const std::string &t);
int readFile(graphP g, const std::string &t, const char *name = "in.txt");
bool contentDefined(int a, int res);                                   // does the interface promise graph content?
