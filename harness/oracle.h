// Reference graph theory, written independently of the library.
#pragma once
#include <vector>
#include <string>
#include <utility>
#include <set>
typedef std::pair<int,int> Edge;
struct UG {                       // simple undirected graph, vertices 0..n-1
  int n = 0; std::vector<Edge> e;
  UG(int n_ = 0) : n(n_) {}
  int m() const { return (int)e.size(); }
};
typedef std::vector<std::vector<int>> Adj;
Adj adjOf(const UG &g);
Edge norm(int a, int b);
std::set<Edge> edgeSet(const UG &g);
std::vector<int> componentsOf(const UG &g, int *count = nullptr);
bool isConnected(const UG &g);
std::vector<UG> biconnected(const UG &g);      // blocks with at least one edge, relabelled
bool isPlanar(const UG &g);
bool isOuterplanar(const UG &g);
bool hasK4(const UG &g);                       // homeomorph of K4
bool hasK23(const UG &g);
bool hasK33(const UG &g);
// "" if rot (cyclic neighbour lists) is a planar embedding of exactly graph g; else what is wrong.
std::string badEmbedding(const UG &g, const Adj &rot, bool outer);
enum { S_K5 = 1, S_K33 = 2, S_K4 = 4, S_K23 = 8 };
// Which of the graphs is exactly subdivided by the edge set of h (isolated vertices ignored); 0 if none.
int subdivisionOf(const UG &h);
UG deleteEdge(const UG &g, int i);
UG contractEdge(const UG &g, int i);
