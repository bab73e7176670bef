// Graph generators. Every random choice comes from the Rng given.
#pragma once
#include "engine.h"
#include "oracle.h"
enum Profile { P_ANY, P_PLANAR, P_NONPLANAR, P_OUTER, P_K5SUM, P_BLOCKS, P_SP, P_SPARSE };
struct SizeOpt { int lo = 1, hi = 60; };
int pickSize(Rng &r, bool thorough, int cap = 300);
UG genGraph(Rng &r, Profile p, int n, std::string &kind);   // about n vertices
UG mixed(Rng &r, bool thorough, std::string &kind, int cap = 300); // any profile
void present(Rng &r, const UG &g, Case &c);                   // vertex relabelling, edge order, orientation
UG fromCase(const Case &c);
std::vector<int> permutation(Rng &r, int n);
// building blocks
UG gComplete(int n); UG gBip(int a, int b); UG gCycle(int n); UG gPath(int n); UG gWheel(int k); UG gGrid(int a, int b);
UG gTriangulation(Rng &r, int n, int flips); UG gGnm(Rng &r, int n, int m); UG gRandomTree(Rng &r, int n, int shape);
UG gOuter(Rng &r, int n); UG gTwoTree(Rng &r, int n);
UG gUnion(const UG &a, const UG &b); UG gSum1(Rng &r, const UG &a, const UG &b); UG gSum2(Rng &r, const UG &a, const UG &b, bool keep);
UG gSubdivide(Rng &r, UG g, int k); UG gThin(Rng &r, const UG &g, int permille); UG gAddEdges(Rng &r, UG g, int k); UG gPendants(Rng &r, UG g, int k); UG gOverlay(Rng &r, int n, int q, int local); UG gEars(Rng &r, int n, int odd);
UG gCirculant(int n, const std::vector<int> &ds); UG gMobius(int k); UG gPrism(int k); UG gPetersen(); UG gHypercube(int d);
