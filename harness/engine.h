// Property-based testing engine: seeded case generation, forked execution,
// crash/hang/leak detection, shrinking, replay files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); } // inclusive
  bool chance(int num, int den) { return below(den) < num; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[below(i + 1)]);
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};

// A generated case: plain data, independent of the engine, so that a replay
// file can be run without any random source.
struct Case {
  std::string kind;                     // which generator made it (label only)
  std::map<std::string, long> p;        // named integer parameters
  std::vector<std::vector<int>> items;  // edges, or operations
  std::string bytes;                    // byte-level inputs
  long get(const char *k, long d = 0) const { auto i = p.find(k); return i == p.end() ? d : i->second; }
  std::string text() const;             // replay form
  uint64_t hash() const;
};

struct Failure { std::string msg; };

struct Ctx {
  std::map<std::string, long> labels;
  bool nontrivial = false;
  bool replay = false;                  // verbose replays may print details
  long evals = 0;                       // oracle evaluations inside this case
  void label(const std::string &s, long n = 1) { labels[s] += n; }
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};
#define CHECK(ctx, cond, ...) do { if (!(cond)) (ctx).fail(__VA_ARGS__); } while (0)

struct Prop {
  std::string id;
  std::string rule;                                   // how cases are made / what is non-trivial
  std::function<void(Rng &, Case &, bool thorough)> gen;
  std::function<void(const Case &, Ctx &)> check;
  long quick = 20000, thorough = 400000;              // number of cases
  int cpuLimit = 60;                                  // seconds of CPU for one case
  bool itemsAreEdges = false;                         // items are edges over 0..p.n-1 (vertex shrinking)
  int batch = 32;
  bool freezeParams = false;                          // do not shrink p
  std::vector<std::string> fixedParams;               // parameters the shrinker must not touch
  std::string minimalNote;
};
void registerProp(const Prop &p);
struct Reg { Reg(const Prop &p) { registerProp(p); } };

uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
int engineMain(int argc, char **argv);
extern std::string g_scratch;   // private scratch directory of this process (removed at exit by the driver)
