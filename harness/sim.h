// A model of the graph data structure's editing operations, and an executor that
// applies one generated operation to the library and to the model.
#pragma once
#include "lib.h"
typedef std::vector<int> Op;
struct Model {
  int n = 0, m = 0;                    // m counts hidden edges too
  Adj adj;                             // ordered neighbour lists, 0-based
  std::map<Edge, int> dir;             // norm(a,b) -> 1: a->b only, 2: b->a only (absent: undirected)
  explicit Model(int n_ = 0) : n(n_), adj(n_) {}
  int pos(int u, int v) const { for (size_t i = 0; i < adj[u].size(); ++i) if (adj[u][i] == v) return (int)i; return -1; }
  bool has(int u, int v) const { return pos(u, v) >= 0; }
  std::vector<Edge> edges() const { std::vector<Edge> r; for (int v = 0; v < n; ++v) for (int w : adj[v]) if (v < w) r.push_back({v, w}); return r; }
  int flag(int u, int v) const;        // direction flag expected on the arc u -> v
  void drop(int u, int v) { adj[u].erase(adj[u].begin() + pos(u, v)); adj[v].erase(adj[v].begin() + pos(v, u)); }
  void setFlag(int u, int v, int f);
};
enum { OP_ADD, OP_DYN, OP_INSERT, OP_DELETE, OP_DIR, OP_ENSURE, OP_QUERY, OP_EDIT_COUNT,
       OP_HIDE_E = 10, OP_HIDE_V, OP_CONTRACT, OP_IDENTIFY, OP_RESTORE, OP_RESTORE_ALL };
Op randomEdit(Rng &r, int what);
// growth: the arc capacity may be increased (no extension with per-edge data attached)
void edit(Ctx &, graphP g, Model &m, const Op &op, bool growth);
void compare(Ctx &, graphP g, const Model &m, const char *what, bool hidden = false);
std::string snapshot(Ctx &, graphP g, const char *what, bool capacity = true);
Model modelOf(Ctx &, graphP g, const char *what);   // from the state of a graph with no hidden edges
// history of hide, contract and identify operations
struct Hidden { int kind; int arc; Model before; std::set<int> goneBefore; };
struct HideSim { std::vector<Hidden> st; std::set<int> gone; };
void hideOp(Ctx &, graphP g, Model &m, HideSim &h, const Op &op, bool strictIdentify = true);
