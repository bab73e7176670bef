// The command-line program (L01-L07). The program's main() is linked into the
// runner as app_main() and run in a forked child inside a scratch directory.
#include "lib.h"
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
int app_main(int argc, char **argv);
int SpecificGraph(char command, char *infileName, char *outfileName, char *outfile2Name, char *inputStr, char **pOutputStr, char **pOutput2Str);
int TransformGraph(char *commandString, char *infileName, char *inputStr, int *outputBase, char *outfileName, char **outputStr);
int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char **outputStr);
}
typedef std::vector<std::string> Args;
struct Run { int rc = -1; std::string out, err; };

static std::string wdir() { return scratchFile("d"); }
static void wipe(const std::string &p) {
  struct stat st; if (lstat(p.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) {
    std::vector<std::string> names; if (DIR *d = opendir(p.c_str())) { while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); } closedir(d); }
    for (auto &n : names) wipe(p + "/" + n);
    rmdir(p.c_str());
  } else unlink(p.c_str());
}
static void freshDir() { wipe(wdir()); mkdir(wdir().c_str(), 0755); }
static std::string W(const std::string &n) { return wdir() + "/" + n; }
static void put(const std::string &n, const std::string &t) { spit(W(n), t); }
static std::string get(const std::string &n) { return slurp(W(n)); }
static void listInto(const std::string &rel, std::set<std::string> &out) {
  if (DIR *d = opendir(rel.empty() ? wdir().c_str() : W(rel).c_str())) {
    while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string r = rel.empty() ? n : rel + "/" + n; struct stat st; if (lstat(W(r).c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) listInto(r, out); else out.insert(r); }
    closedir(d);
  }
}
static std::set<std::string> files() { std::set<std::string> s; listInto("", s); return s; }
static std::string joined(const Args &a) { std::string s = "planarity"; for (auto &x : a) s += " '" + (x.size() > 60 ? x.substr(0, 60) + "..." : x) + "'"; return s; }
static void noNewFiles(Ctx &ctx, const std::set<std::string> &before, std::set<std::string> allowed, const std::string &cmd) {
  for (auto &f : files()) CHECK(ctx, before.count(f) || allowed.count(f), "files: %s created the file '%s'", cmd.c_str(), f.c_str());
}
// Runs a function of the program in a child; crashes, sanitizer reports, hangs, and leaks fail the case.
static Run inChild(Ctx &ctx, const std::function<int()> &body, const std::string &cmd, const std::string &in, long clock, int cpu, bool piped = false) {
  struct Shared { volatile int done, rc; char leak[512]; };
  static Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof *sh);
  std::string fi = scratchFile("stdin"), fo = scratchFile("stdout"), fe = scratchFile("stderr"); spit(fi, in); mkdir(wdir().c_str(), 0755); std::string wd = wdir();
  int fd[2]; if ((piped = piped && in.size() < 60000 && !pipe(fd))) { if (write(fd[1], in.data(), in.size()) < 0) {} close(fd[1]); }
  fflush(nullptr); pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 1}; setrlimit(RLIMIT_CPU, &rl); rl = {64u << 20, 64u << 20}; setrlimit(RLIMIT_FSIZE, &rl);
    int a = piped ? fd[0] : open(fi.c_str(), O_RDONLY), b = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), c = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (a < 0 || b < 0 || c < 0 || chdir(wd.c_str())) _exit(90);
    dup2(a, 0); dup2(b, 1); dup2(c, 2); close(a); close(b); close(c); clearerr(stdin);
    mt_begin(); mt_time(clock); int rc = body(); std::string leak = mt_end();
    fflush(stdout); sh->rc = rc & 255; strncpy(sh->leak, leak.c_str(), sizeof sh->leak - 1); sh->done = 1; _exit(0);
  }
  if (piped) close(fd[0]);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Run r; r.out = slurp(fo); r.err = slurp(fe);
  if (!sh->done) {
    size_t k = r.err.find("runtime error:"); if (k == std::string::npos) k = r.err.find("ERROR: AddressSanitizer");
    std::string d = k == std::string::npos ? "" : r.err.substr(k, 300); for (auto &ch : d) if (ch == '\n') ch = ' ';
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) ctx.fail("hang: %s did not end within %d s of CPU", cmd.c_str(), cpu);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXFSZ) ctx.fail("hang: %s writes without end", cmd.c_str());
    ctx.fail("crash: %s ended with status %d %s", cmd.c_str(), st, d.c_str());
  }
  CHECK(ctx, !sh->leak[0], "leak: %s: %s", cmd.c_str(), sh->leak); r.rc = sh->rc; ctx.evals++;
  return r;
}
static Run app(Ctx &ctx, const Args &args, const std::string &in = "", long clock = -1, int cpu = 20, const char *from = nullptr, bool piped = false) {
  std::vector<std::vector<char>> v; v.emplace_back(std::vector<char>{'p', 'l', 0}); for (auto &x : args) { v.emplace_back(x.begin(), x.end()); v.back().push_back(0); v.back().shrink_to_fit(); }
  std::vector<char *> argv; for (auto &x : v) argv.push_back(x.data()); argv.push_back(nullptr);
  return inChild(ctx, [&] { if (from && chdir(from)) _exit(91); return app_main((int)v.size(), argv.data()); }, joined(args), in, clock, cpu, piped);
}
static const char *algArg[A_COUNT] = {"-p", "-o", "-d", "-2", "-3", "-4"}; // order of enum Alg
static const char *algFile[A_COUNT] = {"PlanarEmbed", "OuterplanarEmbed", "DrawPlanar", "K23Search", "K33Search", "K4Search"};
static std::string verdictText(int a, bool free) {
  switch (a) { case A_PLANAR: case A_DRAW: return free ? "is planar." : "is not planar."; case A_OUTER: return free ? "is outerplanar." : "is not outerplanar.";
    case A_K23: return free ? "has no subgraph homeomorphic to K_{2,3}." : "has a subgraph homeomorphic to K_{2,3}."; case A_K33: return free ? "has no subgraph homeomorphic to K_{3,3}." : "has a subgraph homeomorphic to K_{3,3}."; default: return free ? "has no subgraph homeomorphic to K_4." : "has a subgraph homeomorphic to K_4."; }
}
// the final line end of a written g6 graph is optional, and so is the header
static bool isG6(std::string t, const UG &g) { std::string w = g6Text(g); w.pop_back(); if (!t.empty() && t.back() == '\n') t.pop_back(); return t == w || t == ">>graph6<<" + w; }
enum { FM_LIST1, FM_LIST0, FM_MATRIX, FM_LEDA, FM_G6, FM_COUNT };
static std::string graphText(const UG &g, int fmt) { switch (fmt) { case FM_LIST1: return adjListText(g, false); case FM_LIST0: return adjListText(g, true); case FM_MATRIX: return matrixText(g); case FM_LEDA: return ledaText(g); default: return g6Text(g); } }
static bool zeroBased(int fmt) { return fmt == FM_LIST0 || fmt == FM_G6; }
static int needLine(Ctx &ctx, const std::string &t, size_t &pos, std::vector<long> &nums, const std::string &what) { // a line of numbers, the first possibly followed by ':'
  size_t nl = t.find('\n', pos); CHECK(ctx, nl != std::string::npos, "text: %s ends early", what.c_str()); std::string l = t.substr(pos, nl - pos); pos = nl + 1; nums.clear();
  const char *c = l.c_str(); for (;;) { while (*c == ' ' || *c == ':') ++c; if (!*c) break; char *e; long v = strtol(c, &e, 10); CHECK(ctx, e != c, "text: %s has the line '%.60s'", what.c_str(), l.c_str()); nums.push_back(v); c = e; } return (int)nums.size();
}
// An adjacency list as documented: N=.., one line per vertex, terminator 0 or -1. Returns the position after it.
static size_t parseList(Ctx &ctx, const std::string &t, int n, bool zero, Adj &out, const std::string &what) {
  std::string h = "N=" + std::to_string(n) + "\n"; CHECK(ctx, t.compare(0, h.size(), h) == 0, "text: %s starts with '%.40s'", what.c_str(), t.c_str()); size_t pos = h.size(); int o = zero ? 0 : 1; out.assign(n, {}); std::vector<long> v;
  for (int i = 0; i < n; ++i) {
    needLine(ctx, t, pos, v, what); CHECK(ctx, v.size() >= 2 && v[0] == i + o && v.back() == (zero ? -1 : 0), "text: %s: line of vertex %d is wrong", what.c_str(), i + o);
    for (size_t k = 1; k + 1 < v.size(); ++k) { CHECK(ctx, v[k] >= o && v[k] < n + o, "text: %s: vertex %d has neighbour %ld", what.c_str(), i + o, v[k]); out[i].push_back((int)v[k] - o); }
  }
  return pos;
}
static UG parsePlainList(Ctx &ctx, const std::string &t, int n, bool zero, const std::string &what, Adj *rot = nullptr) {
  Adj a; size_t p = parseList(ctx, t, n, zero, a, what); CHECK(ctx, p == t.size(), "text: %s has more text after the lists", what.c_str()); UG u(n); std::map<Edge, int> k;
  for (int v = 0; v < n; ++v) for (int w : a[v]) ++k[{v, w}];
  for (auto &x : k) { CHECK(ctx, x.second == 1 && x.first.first != x.first.second && k.count({x.first.second, x.first.first}), "text: %s: adjacency %d-%d is not mutual or not single", what.c_str(), x.first.first, x.first.second); if (x.first.first < x.first.second) u.e.push_back(x.first); }
  if (rot) *rot = a; return u;
}
static void checkEmbeddingText(Ctx &ctx, const std::string &t, const UG &in, bool zero, bool outer, const std::string &what) {
  Adj rot; parsePlainList(ctx, t, in.n, zero, what, &rot); std::string b = badEmbedding(in, rot, outer); CHECK(ctx, b.empty(), "embedding: %s: %s", what.c_str(), b.c_str());
}
static void checkSubgraphText(Ctx &ctx, const std::string &t, const UG &in, bool zero, int kinds, const std::string &what) {
  UG h = parsePlainList(ctx, t, in.n, zero, what); auto s = edgeSet(in); for (auto &e : h.e) CHECK(ctx, s.count(norm(e.first, e.second)), "obstruction: %s: edge %d-%d is not in the input", what.c_str(), e.first, e.second);
  int k = subdivisionOf(h); CHECK(ctx, k & kinds, "obstruction: %s: not a subdivision of the promised graphs (kind %d)", what.c_str(), k);
}
static const int algKinds[A_COUNT] = {S_K5 | S_K33, S_K4 | S_K23, 0, S_K23, S_K33, S_K4};
static void checkDrawingText(Ctx &ctx, const std::string &t, const UG &in, bool zero, const std::string &what, const std::string *picture) {
  Adj rot; size_t pos = parseList(ctx, t, in.n, zero, rot, what); std::string b = badEmbedding(in, rot, false); CHECK(ctx, b.empty(), "embedding: %s: %s", what.c_str(), b.c_str());
  CHECK(ctx, t.compare(pos, 13, "<DrawPlanar>\n") == 0, "drawing: %s has no drawing section", what.c_str()); pos += 13; std::vector<long> v; Drawing d; d.ok = true; int o = zero ? 0 : 1;
  for (int i = 0; i < in.n; ++i) { needLine(ctx, t, pos, v, what); CHECK(ctx, v.size() == 4 && v[0] == i + o, "drawing: %s: line of vertex %d", what.c_str(), i + o); d.v.push_back({(int)v[1], (int)v[2], (int)v[3]}); }
  std::vector<int> at(in.n, -1); for (int i = 0; i < in.n; ++i) if (d.v[i][0] >= 0 && d.v[i][0] < in.n) at[d.v[i][0]] = i;
  for (int i = 0; i < 2 * in.m(); ++i) { needLine(ctx, t, pos, v, what); CHECK(ctx, v.size() == 4, "drawing: %s: line of arc %d", what.c_str(), i); std::array<int,3> c = {(int)v[1], (int)v[2], (int)v[3]};
    if (i & 1) { CHECK(ctx, c == d.e.back(), "drawing: %s: the two arcs of an edge differ", what.c_str()); continue; }
    CHECK(ctx, c[1] >= 0 && c[1] < in.n && c[2] >= 0 && c[2] < in.n && at[c[1]] >= 0 && at[c[2]] >= 0, "drawing: %s: arc %d spans rows %d..%d", what.c_str(), i, c[1], c[2]); d.e.push_back(c); d.ev.push_back({at[c[1]], at[c[2]]}); }
  CHECK(ctx, t.compare(pos, std::string::npos, "</DrawPlanar>\n") == 0, "drawing: %s: the section does not end properly", what.c_str());
  std::set<Edge> s; for (auto &e : d.ev) s.insert(norm(e.first, e.second)); CHECK(ctx, s == edgeSet(in), "drawing: %s: the drawn edges are not those of the graph", what.c_str());
  verifyDrawingData(ctx, in.n, in.m(), d, what.c_str()); if (picture) { if (in.m()) checkRendition(ctx, in, d, *picture, o); }
}
static std::string nameFor(int k, const char *stem, Rng &r) { // short, long (within the documented limit) and nested names
  switch (k) { case 0: return std::string(stem) + ".txt"; case 1: return stem; case 2: mkdir(W("sub").c_str(), 0755); if (r.chance(1, 2)) { mkdir(W("sub/of").c_str(), 0755); return std::string("sub/of/") + stem + ".x"; } return std::string("sub/") + stem + ".x"; case 3: return std::string(stem) + std::string(r.range(90, 124 - (int)strlen(stem)), 'n') + ".txt"; default: return std::string("./") + stem + ".a.b"; }
}
static void checkQuiet(Ctx &ctx, const Run &r, const std::string &cmd) { CHECK(ctx, r.out.empty() && r.err.empty(), "quiet: %s printed '%.60s' / '%.60s'", cmd.c_str(), r.out.c_str(), r.err.c_str()); }
// ------------------------------------------------------------------ L01
static Reg l01({"L01", "Graphs of 1-120 vertices (planar, nonplanar, outerplanar, series-parallel, sparse, dense), written by the harness in five formats under short, long and nested names or fed as stdin (redirected or piped), given to the specific-graph command with every algorithm, with and without second output and quiet mode, or to the legacy command. Oracle: own decision procedures for the exit code and message, own parser and certificate checker for every output file (embedding, obstruction, homeomorph, drawing, rendition), and no other file written. Non-trivial: at least 6 vertices and 6 edges.",
  [](Rng &r, Case &c, bool th) { UG g = mixed(r, th, c.kind, 120); present(r, g, c); c.p["fmt"] = r.below(FM_COUNT); c.p["alg"] = r.below(A_COUNT); c.p["quiet"] = r.below(2); c.p["second"] = r.below(2); c.p["legacy"] = r.chance(1, 8); c.p["nin"] = r.below(6); c.p["nout"] = r.below(6); c.p["seed"] = (long)(r.next() >> 20); c.p["piped"] = r.below(2); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); if (in.n < 1) return; labelGraph(ctx, in); Rng r(c.get("seed")); int fmt = c.get("fmt"), a = c.get("alg"); bool quiet = c.get("quiet"), second = c.get("second"), legacy = c.get("legacy"), zero = zeroBased(fmt); if (legacy) a = A_PLANAR;
    freshDir(); std::string text = graphText(in, fmt), I = c.get("nin") == 5 ? "stdin" : nameFor(c.get("nin"), "in", r), O = nameFor(c.get("nout") % 5, "out", r), O2 = nameFor(c.get("nout") == 5 ? 2 : c.get("nout"), "second", r); bool toStdout = c.get("nout") == 5 && quiet && !legacy; if (toStdout) { if (r.chance(1, 2)) O = "stdout"; else O2 = "stdout"; }
    if (legacy && I == "stdin") I = "in.txt";
    if (I != "stdin") put(I, text);
    auto before = files(); Args args; bool free = expectFree(in, a);
    if (legacy) { args = {I, O}; if (second) { args.push_back("-n"); args.push_back(O2); } } else { args = {"-s"}; if (quiet) args.push_back("-q"); args.push_back(algArg[a]); args.push_back(I); args.push_back(O); if (second) args.push_back(O2); }
    Run x = app(ctx, args, I == "stdin" ? text : "", -1, 20, nullptr, c.get("piped")); if (I == "stdin") ctx.label(c.get("piped") ? "piped" : "redirected"); std::string cmd = joined(args);
    int want = free || legacy ? 0 : 1; CHECK(ctx, x.rc == want, "verdict: %s exited with %d, expected %d", cmd.c_str(), x.rc, want);
    auto file = [&](const std::string &n) { return n == "stdout" ? x.out : get(n); };
    bool main = a == A_PLANAR || a == A_OUTER || a == A_DRAW ? free : !free; // is there a primary output?
    std::string other; if (second && ((a == A_DRAW && free) || ((a == A_PLANAR || a == A_OUTER) && !free))) other = O2;
    std::set<std::string> allowed; if (main && O != "stdout") allowed.insert(O.compare(0, 2, "./") ? O : O.substr(2)); if (!other.empty() && other != "stdout") allowed.insert(other.compare(0, 2, "./") ? other : other.substr(2));
    noNewFiles(ctx, before, allowed, cmd); auto now = files(); for (auto &f : allowed) CHECK(ctx, now.count(f), "files: %s did not write '%s'", cmd.c_str(), f.c_str());
    if (I != "stdin") CHECK(ctx, get(I) == text, "files: %s changed its input", cmd.c_str());
    std::string pic; bool hasPic = a == A_DRAW && free && !other.empty(); if (hasPic) pic = file(O2);
    if (main) switch (a) {
      case A_PLANAR: case A_OUTER: checkEmbeddingText(ctx, file(O), in, zero, a == A_OUTER, cmd); break;
      case A_DRAW: checkDrawingText(ctx, file(O), in, zero, cmd, hasPic ? &pic : nullptr); break;
      default: checkSubgraphText(ctx, file(O), in, zero, algKinds[a], cmd); }
    if (!other.empty() && !hasPic) checkSubgraphText(ctx, file(O2), in, zero, algKinds[a], cmd);
    if (!legacy && !quiet) { CHECK(ctx, x.out.find(verdictText(a, free)) != std::string::npos, "message: %s printed '%.100s', not '%s'", cmd.c_str(), x.out.c_str(), verdictText(a, free).c_str()); CHECK(ctx, x.err.empty(), "message: %s printed an error: %.100s", cmd.c_str(), x.err.c_str()); }
    if (quiet && !legacy) { Run q = x; if ((main && O == "stdout") || other == "stdout") q.out = ""; checkQuiet(ctx, q, cmd); }
    ctx.label(std::string(legacy ? "legacy " : algName[a]) + (free ? " yes" : " no")); ctx.nontrivial = in.n >= 6 && in.m() >= 6;
  }, 12000, 120000, 60, true, 32, false, {"seed"}});
// ------------------------------------------------------------------ L02
// items: one list per graph of pair numbers a*n+b (a<b)
static UG pairGraph(int n, const std::vector<int> &it) { UG g(n); std::set<Edge> s; for (int x : it) { if (n < 2 || x < 0) continue; int a = x / n % n, b = x % n; if (a != b && s.insert(norm(a, b)).second) g.e.push_back(norm(a, b)); } return g; }
static std::vector<int> pairs(const UG &g) { std::vector<int> v; for (auto &e : g.e) { Edge f = norm(e.first, e.second); v.push_back(f.first * g.n + f.second); } return v; }
static UG ofOrder(Rng &r, int n, std::string &kind) { static const Profile ps[] = {P_ANY, P_PLANAR, P_OUTER, P_SP, P_NONPLANAR, P_SPARSE, P_BLOCKS}; UG g; for (int t = 0; t < 4; ++t) { g = genGraph(r, ps[r.below(7)], n, kind); if (g.n <= n) break; } UG h(n); for (auto &e : g.e) if (e.first < n && e.second < n) h.e.push_back(e); if (r.chance(1, 12)) h = gComplete(n); if (r.chance(1, 12)) h = UG(n); return h; }
static Reg l02({"L02", "g6 files of 0-30 graphs, or of up to 2200 repeated small ones, of one order 1-40 (empty to complete, header or not, LF or CRLF, nested names) given to the test-all command with every algorithm, quiet or not; in a third of the cases one line is damaged (wrong length, byte outside the alphabet, other order). Oracle: own decision procedures give the numbers of the result line; a damaged line must give ERROR, a failing exit code and numbers only of the graphs before it. Non-trivial: at least 3 graphs with at least 5 vertices.",
  [](Rng &r, Case &c, bool th) { int n = r.chance(1, 8) ? r.range(1, 4) : r.range(5, r.chance(1, 4) ? 40 : 14); c.p["n"] = n; int k = r.chance(1, 10) ? r.below(2) : r.range(2, th ? 30 : 14); for (int i = 0; i < k; ++i) { std::string kind; UG g = ofOrder(r, n, kind); c.items.push_back(pairs(g)); } c.kind = "g6 file"; c.p["times"] = k && n <= 6 && r.chance(1, 12) ? r.range(10, 2200) / k + 1 : 1;
    c.p["alg"] = r.below(A_COUNT); c.p["quiet"] = r.below(2); c.p["header"] = r.below(2); c.p["crlf"] = r.chance(1, 4); c.p["nolast"] = r.chance(1, 5); c.p["bad"] = r.chance(1, 3) && k ? 1 + r.below(k) : 0; c.p["how"] = r.below(4); c.p["name"] = r.below(4); c.p["seed"] = (long)(r.next() >> 20); },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"), a = c.get("alg"), bad = c.get("bad"); if (n < 1 || c.items.empty()) return; Rng r(c.get("seed")); freshDir(); bool quiet = c.get("quiet"); std::string nl = c.get("crlf") ? "\r\n" : "\n", t = c.get("header") ? ">>graph6<<" : ""; int ok = 0, non = 0, k = 0; bool broken = false;
    for (size_t i = 0; i < c.items.size(); ++i) {
      UG g = pairGraph(n, c.items[i]); std::string s = g6Text(g); s.pop_back();
      if (bad == (int)i + 1) { int how = c.get("how"); bool damaged = true;
        if (how == 0) s += '?'; else if (how == 1 && s.size() > 1) s.pop_back(); else if (how == 2 && s.size() > 1) s[1 + r.below((int)s.size() - 1)] = (char)r.range(33, 62); else if (i > 0) s = g6Text(UG(n + 1)), s.pop_back(); else damaged = false;
        if (damaged) broken = true; }
      bool free = expectFree(g, a); for (int times = broken ? 1 : std::max(1, (int)c.get("times")); times > 0; --times) { if (!broken) { ++k; (free ? ok : non)++; } t += s; if (times > 1 || i + 1 < c.items.size() || !c.get("nolast")) t += nl; } }
    std::string I = nameFor(c.get("name"), "all", r), O = nameFor(c.get("name"), "res", r), base = I.substr(I.rfind('/') + 1); put(I, t); auto before = files();
    Args args = {"-t"}; if (quiet) args.push_back("-q"); args.push_back(algArg[a]); args.push_back(I); args.push_back(O); std::string cmd = joined(args); Run x = app(ctx, args);
    CHECK(ctx, x.rc == (broken ? 255 : 0), "verdict: %s exited with %d, expected %d", cmd.c_str(), x.rc, broken ? 255 : 0); noNewFiles(ctx, before, {O}, cmd); std::string res = get(O), want;
    std::string h = "FILENAME=\"" + base + "\" DURATION=\""; CHECK(ctx, res.compare(0, h.size(), h) == 0, "result: %s wrote '%.80s'", cmd.c_str(), res.c_str()); size_t p = res.find('\n'); CHECK(ctx, p != std::string::npos && p > h.size() && res[p - 1] == '"', "result: %s: header line is '%.80s'", cmd.c_str(), res.c_str());
    want = std::string(algArg[a]) + " " + std::to_string(k) + " " + std::to_string(ok) + " " + std::to_string(non) + (broken ? " ERROR\n" : " SUCCESS\n"); std::string got = res.substr(p + 1);
    CHECK(ctx, got == want, "result: %s wrote '%.60s', expected '%s'", cmd.c_str(), got.c_str(), want.c_str()); CHECK(ctx, get(I) == t, "files: %s changed its input", cmd.c_str());
    if (quiet) checkQuiet(ctx, x, cmd); else CHECK(ctx, broken == !x.err.empty(), "message: %s printed '%.100s' as error", cmd.c_str(), x.err.c_str());
    ctx.label(algName[a]); if (broken) ctx.label("damaged line"); if (n == 1) ctx.label("order 1"); ctx.nontrivial = c.items.size() >= 3 && n >= 5;
  }, 8000, 80000, 60, false, 32, false, {"seed", "n"}});
// ------------------------------------------------------------------ L03
static Reg l03({"L03", "Graphs of 1-150 vertices in five input formats (file of any name, redirected or piped stdin, g6 file with further graphs) transformed to g6, adjacency list and matrix, to a file or stdout, quiet or not. Oracle: own encoder: the output text denotes exactly the input graph in the index base of the input (text equality for g6 and matrix, set equality of mutual lists for adjacency lists); transforming the result on to another format again gives the same graph. Non-trivial: at least 6 vertices and 6 edges.",
  [](Rng &r, Case &c, bool th) { UG g = mixed(r, th, c.kind, 150); present(r, g, c); c.p["fmt"] = r.below(FM_COUNT); c.p["to"] = r.below(3); c.p["to2"] = r.below(3); c.p["quiet"] = r.below(2); c.p["nin"] = r.below(6); c.p["nout"] = r.below(6); c.p["more"] = r.chance(1, 4); c.p["seed"] = (long)(r.next() >> 20); c.p["piped"] = r.below(2); },
  [](const Case &c, Ctx &ctx) {
    UG in = fromCase(c); if (in.n < 1) return; labelGraph(ctx, in); Rng r(c.get("seed")); int fmt = c.get("fmt"); bool quiet = c.get("quiet"); freshDir(); std::string text = graphText(in, fmt); if (fmt == FM_G6 && c.get("more")) text += g6Text(gComplete(in.n));
    static const char *toArg[] = {"-g", "-a", "-m"}; std::string I = c.get("nin") == 5 ? "stdin" : nameFor(c.get("nin"), "in", r); if (I != "stdin") put(I, text); bool zero = zeroBased(fmt);
    auto step = [&](const std::string &I, const std::string &O, int to, const std::string &stdinText) { auto before = files(); Args args = {"-x"}; if (quiet || O == "stdout") args.push_back("-q"); args.push_back(toArg[to]); args.push_back(I); args.push_back(O); Run x = app(ctx, args, stdinText, -1, 20, nullptr, c.get("piped")); std::string cmd = joined(args);
      CHECK(ctx, x.rc == 0, "verdict: %s exited with %d", cmd.c_str(), x.rc); noNewFiles(ctx, before, {O.compare(0, 2, "./") ? O : O.substr(2)}, cmd); std::string t = O == "stdout" ? x.out : get(O);
      if (to == 0) CHECK(ctx, isG6(t, in), "transform: %s did not write the g6 form of the graph", cmd.c_str());
      else if (to == 1) { UG u = parsePlainList(ctx, t, in.n, zero, cmd); CHECK(ctx, sameEdges(u, in), "transform: %s wrote another graph", cmd.c_str()); }
      else CHECK(ctx, t == matrixText(in), "transform: %s did not write the upper triangular matrix of the graph", cmd.c_str());
      if (I != "stdin") CHECK(ctx, !stdinText.empty() || files().count(I.compare(0, 2, "./") ? I : I.substr(2)), "files: input vanished"); if (O != "stdout" && (quiet)) checkQuiet(ctx, x, cmd); CHECK(ctx, x.err.empty(), "message: %s printed an error '%.80s'", cmd.c_str(), x.err.c_str()); return t; };
    std::string O = c.get("nout") == 5 ? "stdout" : nameFor(c.get("nout"), "out", r); int to = c.get("to"), to2 = c.get("to2"); std::string t = step(I, O, to, I == "stdin" ? text : "");
    zero = to == 0 ? true : to == 1 ? zero : false; // base of the text just written, when read again
    put("again.txt", t); step("again.txt", "final.txt", to2, "");
    ctx.label(std::string("to ") + toArg[to]); ctx.nontrivial = in.n >= 6 && in.m() >= 6;
  }, 8000, 80000, 60, true, 32, false, {"seed"}});
// ------------------------------------------------------------------ L04
static long numAfter(Ctx &ctx, const std::string &t, const std::string &key, const std::string &cmd) { size_t p = t.find(key); CHECK(ctx, p != std::string::npos, "statistics: %s did not print '%s'", cmd.c_str(), key.c_str()); return atol(t.c_str() + p + key.size()); }
static UG parseEdgeList(Ctx &ctx, const std::string &t, int n, const std::string &name) {
  CHECK(ctx, t.compare(0, name.size() + 1, name + "\n") == 0, "edge list: the first line is not the file name"); size_t pos = name.size() + 1; UG u(n); std::vector<long> v; std::set<Edge> s;
  for (;;) { needLine(ctx, t, pos, v, name); CHECK(ctx, v.size() == 2, "edge list: a line does not have two numbers"); if (!v[0] && !v[1]) break; CHECK(ctx, v[0] >= 1 && v[0] <= n && v[1] >= 1 && v[1] <= n && v[0] != v[1] && s.insert(norm(v[0] - 1, v[1] - 1)).second, "edge list: edge %ld %ld", v[0], v[1]); u.e.push_back(norm(v[0] - 1, v[1] - 1)); }
  CHECK(ctx, pos == t.size(), "edge list: text after the end mark"); return u;
}
static Reg l04({"L04", "The three random-graph commands with sizes 1-80 (weighted to small), 1-30 graphs, every algorithm, quiet or not, with and without second output and edge-list files, numbers given as arguments or typed at the prompt, at a random clock value (which seeds the generator). Oracle: a maximal planar graph has 3N-6 edges and is planar by the own decision procedure, the non-planar one has one more edge and is not; embedding and Kuratowski subgraph are verified against the original graph written beside; statistics add up to the number of graphs. Non-trivial: N at least 5.",
  [](Rng &r, Case &c, bool) { c.kind = "random command"; c.p["cmd"] = r.below(3); c.p["n"] = r.chance(1, 5) ? r.range(1, 4) : r.chance(1, 4) ? r.range(20, 80) : r.range(5, 20); c.p["k"] = r.range(1, 30); c.p["alg"] = r.below(A_COUNT); c.p["quiet"] = r.below(2); c.p["second"] = r.chance(3, 4); c.p["save"] = r.below(3); c.p["typed"] = r.chance(1, 6); c.p["clock"] = (long)(r.next() >> 34); c.p["name"] = r.below(5); c.p["seed"] = (long)(r.next() >> 20); },
  [](const Case &c, Ctx &ctx) {
    int n = c.get("n"), K = c.get("k"), a = c.get("alg"), save = c.get("save"); if (n < 1 || K < 1) return; Rng r(c.get("seed")); bool quiet = c.get("quiet"), second = c.get("second"), typed = c.get("typed") && !quiet; freshDir(); Args args; std::string in; long clock = c.get("clock"); ctx.nontrivial = n >= 5;
    if (c.get("cmd") == 0) {
      args = {"-r"}; if (quiet) args.push_back("-q"); args.push_back(algArg[a]); args.push_back(typed ? "0" : std::to_string(K)); args.push_back(typed ? "0" : std::to_string(n)); if (typed) in = std::to_string(K) + "\n" + std::to_string(n) + "\n"; Run x = app(ctx, args, in, clock); std::string cmd = joined(args);
      CHECK(ctx, x.rc == 0, "verdict: %s exited with %d", cmd.c_str(), x.rc); noNewFiles(ctx, {}, {}, cmd); CHECK(ctx, x.err.empty(), "message: %s printed an error '%.80s'", cmd.c_str(), x.err.c_str()); ctx.label("-r"); if (quiet) { checkQuiet(ctx, x, cmd); return; }
      CHECK(ctx, x.out.find("No Errors Found.") != std::string::npos, "statistics: %s did not print that no errors were found", cmd.c_str()); CHECK(ctx, x.out.find("\r" + std::to_string(K) + "\n") != std::string::npos, "statistics: %s did not count to %d", cmd.c_str(), K);
      if (a == A_PLANAR || a == A_OUTER) { long e = numAfter(ctx, x.out, "Num Embedded=", cmd), s = e; for (const char *m : {"Minor A = ", "Minor B = ", "Minor C = ", "Minor D = ", "Minor E = "}) { if (a == A_OUTER && (m[6] == 'C' || m[6] == 'D')) continue; long v = numAfter(ctx, x.out, m, cmd); CHECK(ctx, v >= 0, "statistics: negative"); s += v; }
        CHECK(ctx, s == K, "statistics: %s: %ld embedded and the minors sum up to %ld, not %d", cmd.c_str(), e, s, K);
        if (a == A_PLANAR) { long E = numAfter(ctx, x.out, "Minor E = ", cmd), C = numAfter(ctx, x.out, "Minor C = ", cmd), A = numAfter(ctx, x.out, "Minor A = ", cmd), e1 = numAfter(ctx, x.out, "Minor E1 = ", cmd), e2 = numAfter(ctx, x.out, "Minor E2 = ", cmd), e3 = numAfter(ctx, x.out, "Minor E3 = ", cmd), e4 = numAfter(ctx, x.out, "Minor E4 = ", cmd); CHECK(ctx, e1 >= 0 && e2 >= 0 && e3 >= 0 && e4 >= 0 && e1 <= C && e2 <= A && e3 + e4 <= E, "statistics: %s: minors A=%ld C=%ld E=%ld E1=%ld E2=%ld E3=%ld E4=%ld", cmd.c_str(), A, C, E, e1, e2, e3, e4); }
        if (n <= 4 && a == A_PLANAR) CHECK(ctx, e == K, "statistics: %s: a graph of %d vertices was not planar", cmd.c_str(), n); if (n <= 3) CHECK(ctx, e == K, "statistics: %s: a graph of %d vertices was not embedded", cmd.c_str(), n); }
      else { long e = a == A_DRAW ? numAfter(ctx, x.out, "Num Graphs Embedded and Drawn=", cmd) : numAfter(ctx, x.out, "Of the generated graphs, ", cmd); CHECK(ctx, e >= 0 && e <= K, "statistics: %s: %ld of %d", cmd.c_str(), e, K); if (n <= 3 || (n <= 4 && a != A_K4)) CHECK(ctx, e == K, "statistics: %s: only %ld of %d graphs of %d vertices", cmd.c_str(), e, K, n); }
      return;
    }
    bool rn = c.get("cmd") == 2; std::string O = nameFor(c.get("name"), "out", r), O2 = nameFor(c.get("name"), "orig", r); args = {rn ? "-rn" : "-rm"}; if (quiet) args.push_back("-q"); args.push_back(typed ? "0" : std::to_string(n)); args.push_back(O); if (second) args.push_back(O2);
    if (typed) in = std::to_string(n) + "\n"; if (!quiet) in += save == 0 ? "n\n" : save == 1 ? "y\n" : ""; std::string cmd = joined(args); Run x = app(ctx, args, in, clock); ctx.label(rn ? "-rn" : "-rm");
    std::string el = rn ? "nonPlanarEdgeList.txt" : "maxPlanarEdgeList.txt"; bool saved = !quiet && save == 1; std::set<std::string> allowed = {O.compare(0, 2, "./") ? O : O.substr(2)}; if (second) allowed.insert(O2.compare(0, 2, "./") ? O2 : O2.substr(2)); if (saved) { allowed.insert(el); allowed.insert(el + ".out.txt"); } noNewFiles(ctx, {}, allowed, cmd);
    auto now = files(); for (auto &f : allowed) CHECK(ctx, now.count(f), "files: %s did not write '%s'", cmd.c_str(), f.c_str());
    CHECK(ctx, x.err.empty(), "message: %s printed an error '%.80s'", cmd.c_str(), x.err.c_str()); if (quiet) checkQuiet(ctx, x, cmd);
    UG orig(n); bool have = second || saved; if (second) orig = parsePlainList(ctx, get(O2), n, false, O2); if (saved) { UG u = parseEdgeList(ctx, get(el), n, el); if (second) CHECK(ctx, sameEdges(u, orig), "edge list: not the edges of the original graph"); orig = u; }
    int full = n * (n - 1) / 2, want = std::min(full, std::max(0, 3 * n - 6 + (rn ? 1 : 0))); bool non = rn && n >= 5; if (n < 3) want = -1; // documented for graphs of at least three vertices only
    if (!have && !non) { orig = parsePlainList(ctx, get(O), n, false, O); have = true; }
    if (have) { if (want >= 0) CHECK(ctx, orig.m() == want, "random: %s made a graph of %d vertices and %d edges, expected %d", cmd.c_str(), n, orig.m(), want); CHECK(ctx, isPlanar(orig) == !non, "random: %s: planarity of the graph is wrong", cmd.c_str()); if (want < 0 || n <= 40) CHECK(ctx, isConnected(orig), "random: %s: the graph is not connected", cmd.c_str()); }
    CHECK(ctx, x.rc == 0 || (non && x.rc == 1), "verdict: %s exited with %d", cmd.c_str(), x.rc);
    if (!quiet) { CHECK(ctx, x.out.find(verdictText(A_PLANAR, !non)) != std::string::npos, "message: %s did not print '%s'", cmd.c_str(), verdictText(A_PLANAR, !non).c_str()); if (have) CHECK(ctx, numAfter(ctx, x.out, "random graph with ", cmd) == orig.m(), "message: %s announced a different number of edges", cmd.c_str()); }
    if (have) { if (non) checkSubgraphText(ctx, get(O), orig, false, S_K5 | S_K33, O); else checkEmbeddingText(ctx, get(O), orig, false, false, O); } else { UG h = parsePlainList(ctx, get(O), n, false, O); CHECK(ctx, subdivisionOf(h) & (S_K5 | S_K33), "obstruction: %s wrote something else", cmd.c_str()); }
    if (saved) CHECK(ctx, sameEdges(parseEdgeList(ctx, get(el + ".out.txt"), n, el + ".out.txt"), parsePlainList(ctx, get(O), n, false, O)), "edge list: result file differs from %s", O.c_str());
  }, 8000, 80000, 60, false, 32, false, {"seed"}});
// ------------------------------------------------------------------ L05
static const char *usedSamples[] = {"Petersen.0-based.txt.K23Search.out.txt", "Petersen.0-based.txt.K33Search.out.txt", "Petersen.0-based.txt.K4Search.out.txt", "Petersen.0-based.txt.OuterplanarEmbed.out.txt", "Petersen.0-based.txt.PlanarEmbed.out.txt", "Petersen.txt.K23Search.out.txt", "Petersen.txt.K33Search.out.txt", "Petersen.txt.K4Search.out.txt", "Petersen.txt.OuterplanarEmbed.out.txt", "Petersen.txt.PlanarEmbed.out.txt",
  "drawExample.0-based.txt.DrawPlanar.out.txt", "drawExample.0-based.txt.DrawPlanar.out.txt.render.txt", "drawExample.txt.DrawPlanar.out.txt", "drawExample.txt.DrawPlanar.out.txt.render.txt", "maxPlanar5.0-based.txt.DrawPlanar.out.txt", "maxPlanar5.0-based.txt.DrawPlanar.out.txt.render.txt", "maxPlanar5.0-based.txt.PlanarEmbed.out.txt", "maxPlanar5.txt.DrawPlanar.out.txt", "maxPlanar5.txt.DrawPlanar.out.txt.render.txt", "maxPlanar5.txt.PlanarEmbed.out.txt",
  "nauty_example.g6.0-based.AdjList.out.txt", "nauty_example.g6.0-based.AdjMat.out.txt", "N5-all.g6.0-based.AdjList.out.txt", "N5-all.g6.0-based.AdjMat.out.txt", "K10.g6.0-based.AdjList.out.txt", "K10.g6.0-based.AdjMat.out.txt", "nauty_example.g6.0-based.AdjList.out.txt.0-based.G6.out.g6", "K10.g6.0-based.AdjList.out.txt.0-based.G6.out.g6"};
static Reg l05({"L05", "The built-in self-test on a copy of the shipped samples, pristine, with one of the 28 exemplars altered (a byte changed, inserted, removed or appended, a null character appended, the file truncated, emptied or removed) or only its line ends converted; as default directory, default directory beside the current one, named directory, quiet or not; or with no directory there at all. Oracle: the self-test succeeds exactly when no exemplar differs apart from carriage returns, and with only a warning when there is no directory. Non-trivial: an exemplar is touched.",
  [](Rng &r, Case &c, bool) { c.kind = "self-test"; c.p["file"] = r.below(28); c.p["how"] = r.below(10); c.p["dir"] = r.chance(1, 3) ? 4 + r.below(4) : r.below(4); c.p["quiet"] = r.below(2); c.p["seed"] = (long)(r.next() >> 20); },
  [](const Case &c, Ctx &ctx) {
    Rng r(c.get("seed")); const char *repo = getenv("VERIF_REPO"); std::string src = std::string(repo ? repo : "/repo") + "/c/samples"; freshDir(); int dir = c.get("dir"); bool beside = dir == 4 || dir == 5, missing = dir >= 6; std::string d = dir == 0 || beside ? "samples" : dir == 1 ? "my samples" : dir == 2 ? "a" : dir == 6 ? "elsewhere" : "b/c", named = dir == 7 ? "nowhere" : d; if (beside) mkdir(W("sub").c_str(), 0755); if (dir == 3 || dir == 7) mkdir(W("b").c_str(), 0755); mkdir(W(d).c_str(), 0755);
    if (DIR *q = opendir(src.c_str())) { while (dirent *e = readdir(q)) { std::string f = e->d_name; if (f[0] != '.' && f.find("Makefile") == std::string::npos) put(d + "/" + f, slurp(src + "/" + f)); } closedir(q); }
    std::string f = d + "/" + usedSamples[c.get("file") % 28], t = get(f), t0 = t; if (t.empty()) return; /* the tree does not ship this exemplar */ int how = c.get("how"); bool same = false; size_t at = (size_t)(r.next() % t.size());
    switch (how) { case 0: same = true; break; case 1: { std::string u; for (char ch : t) { if (ch == '\n' && (u.empty() || u.back() != '\r')) u += '\r'; u += ch; } t = u; same = true; break; } case 2: { std::string u; for (char ch : t) if (ch != '\r') u += ch; t = u; same = true; break; }
      case 3: t[at] = (char)(t[at] == '1' ? '2' : t[at] == '\r' ? 'x' : '1'); break; case 4: t.insert(at, 1, '7'); break; case 5: { while (t[at] == '\r') at = (at + 1) % t.size(); t.erase(at, 1); break; } case 6: t += r.chance(1, 2) ? "\n" : "x"; break; case 7: t += '\0'; t += "abc"; break; case 8: t.resize(r.below((int)at + 1)); break; default: t.clear(); }
    auto plain = [](const std::string &s) { std::string u; for (char ch : s) if (ch != '\r') u += ch; return u; }; if (!same && plain(t) == plain(t0)) same = true;
    if (how == 9 && r.chance(1, 2)) unlink(W(f).c_str()); else put(f, t);
    auto before = files(); Args args = {"-test"}; bool quiet = c.get("quiet"); if (quiet) args.push_back("-q"); if (dir && dir != 4 && dir != 6) args.push_back(named); Run x = app(ctx, args, "", -1, 20, beside ? "sub" : nullptr); std::string cmd = joined(args);
    if (missing) { CHECK(ctx, x.rc == 0, "self-test: exit code %d without samples", x.rc); noNewFiles(ctx, before, {}, cmd); if (quiet) checkQuiet(ctx, x, cmd); else CHECK(ctx, x.out.find("WARNING") != std::string::npos && x.out.find("succeeded.\n") == std::string::npos, "self-test: no warning that the samples are missing"); ctx.label("no samples"); return; }
    CHECK(ctx, x.rc == (same ? 0 : 255), "self-test: exit code %d although %s %s (change %d)", x.rc, usedSamples[c.get("file") % 28], same ? "is unchanged" : "is wrong", how); noNewFiles(ctx, before, {}, cmd);
    if (quiet) checkQuiet(ctx, x, cmd); else CHECK(ctx, (x.out.find("succeeded.\n") != std::string::npos) == same && (x.out.find("FAILED") != std::string::npos) == !same, "self-test: final message does not fit the result");
    ctx.nontrivial = how != 0; ctx.label(same ? "unchanged" : "altered");
  }, 2500, 20000, 60, false, 16, false, {"seed"}});
// ------------------------------------------------------------------ L06
// items: menu operations {op, a, b, c}; graphs are derived from the parameters
static Reg l06({"L06", "Scripts of 1-8 menu operations on standard input (a file or a pipe): configure the mode, run an algorithm on a named graph file (with or without suffix), on random graphs and on random maximal planar and nonplanar graphs, transform a graph to a file or the console, test all graphs of a g6 file to a file or the console, help, invalid choices; then quit, or end of input there or in the middle of an operation. Oracle: the files and console text that each operation promises, checked with the certificate checkers of L01-L03; the program ends with exit code 0. Non-trivial: at least 2 operations, one of which processes a graph.",
  [](Rng &r, Case &c, bool) { c.kind = "menu script"; int k = r.range(1, 8); for (int i = 0; i < k; ++i) c.items.push_back({r.below(9), r.below(A_COUNT), r.below(FM_COUNT), r.below(64), (int)(r.next() >> 34)}); c.p["end"] = r.below(4); c.p["clock"] = (long)(r.next() >> 34); c.p["n"] = r.range(1, 30); c.p["piped"] = r.below(2); },
  [](const Case &c, Ctx &ctx) {
    freshDir(); std::string s; int n = std::max<long>(1, c.get("n")), k = 0, graphs = 0; std::vector<std::function<void(const Run &)>> after; std::set<std::string> allowed; char mode = 'r';
    auto setMode = [&](char m) { s += std::string("r\n") + m + "\n"; if (m == 'r') s += "n\nn\nn\nn\n"; mode = m; };
    for (auto &it : c.items) { if (it.size() < 5) continue; ++k; int op = it[0], a = it[1] % A_COUNT, fmt = it[2] % FM_COUNT, x = it[3]; Rng r(it[4]); std::string kind; UG g = ofOrder(r, n, kind); std::string id = "g" + std::to_string(k), alg(1, algArg[a][1]); if (x & 1) alg[0] = (char)toupper(alg[0]);
      switch (op) {
        case 0: case 1: case 2: { // specific graph
          if (mode != 's') setMode('s'); std::string f = id + ((x & 2) ? ".txt" : (x & 4) ? ".graph" : ".txt"), typed = (x & 2) && !(x & 4) ? id : f; put(f, graphText(g, fmt)); allowed.insert(f); bool free = expectFree(g, a), zero = zeroBased(fmt); s += alg + "\n" + typed + "\nk\n"; std::string out = f + "." + algFile[a] + ".out.txt"; ++graphs;
          bool main = a == A_K23 || a == A_K33 || a == A_K4 ? !free : free || a != A_DRAW; if (main) allowed.insert(out); if (a == A_DRAW && free) allowed.insert(out + ".render.txt");
          after.push_back([=, &ctx](const Run &) { if (!main) return; CHECK(ctx, files().count(out), "menu: '%s' was not written", out.c_str()); std::string t = get(out); if (a == A_DRAW) { std::string pic = get(out + ".render.txt"); CHECK(ctx, files().count(out + ".render.txt"), "menu: no rendition written"); checkDrawingText(ctx, t, g, zero, out, &pic); } else if (free) checkEmbeddingText(ctx, t, g, zero, a == A_OUTER, out); else checkSubgraphText(ctx, t, g, zero, algKinds[a], out); });
          break; }
        case 3: { // transform
          std::string f = id + ".in", o = (x & 2) ? id + ".x" : ""; put(f, graphText(g, fmt)); allowed.insert(f); int to = x / 4 % 3; s += std::string((x & 1) ? "X" : "x") + "\n" + f + "\n" + o + "\n" + "gam"[to] + "\nk\n"; ++graphs; if (!o.empty()) allowed.insert(o); bool zero = zeroBased(fmt);
          after.push_back([=, &ctx](const Run &run) { std::string t; if (o.empty()) { std::string want = to == 0 ? g6Text(g) : to == 2 ? matrixText(g) : "N=" + std::to_string(g.n) + "\n"; CHECK(ctx, run.out.find("Output:\n" + want) != std::string::npos || run.out.find("Output:\n>>graph6<<" + want) != std::string::npos, "menu: the transformed graph was not printed"); return; }
            CHECK(ctx, files().count(o), "menu: '%s' was not written", o.c_str()); t = get(o); if (to == 1) { UG u = parsePlainList(ctx, t, g.n, zero, o); CHECK(ctx, sameEdges(u, g), "menu: transformed to another graph"); } else CHECK(ctx, to == 0 ? isG6(t, g) : t == matrixText(g), "menu: '%s' is not the transformed graph", o.c_str()); });
          break; }
        case 4: { // test all
          std::string f = id + ".g6", o = (x & 2) ? id + ".res" : "", t; int cnt = 1 + x / 8 % 4, ok = 0; for (int i = 0; i < cnt; ++i) { UG h = i ? ofOrder(r, n, kind) : g; t += g6Text(h); ok += expectFree(h, a); } put(f, t); allowed.insert(f); if (!o.empty()) allowed.insert(o); s += "t\n" + f + "\n" + o + "\n" + alg + "\nk\n"; ++graphs;
          std::string want = "DURATION=\"", line = std::string("\n") + algArg[a] + " " + std::to_string(cnt) + " " + std::to_string(ok) + " " + std::to_string(cnt - ok) + " SUCCESS\n";
          after.push_back([=, &ctx](const Run &run) { std::string t = o.empty() ? run.out : get(o); CHECK(ctx, t.find(line) != std::string::npos && t.find("FILENAME=\"" + f + "\"") != std::string::npos, "menu: test-all of '%s' did not give '%s'", f.c_str(), line.c_str() + 1); });
          break; }
        case 5: { if (mode != 'r' || (x & 1)) setMode('r'); int K = 1 + x / 2 % 6; s += alg + "\n" + std::to_string(K) + "\n" + std::to_string(n) + "\nk\n"; after.push_back([=, &ctx](const Run &run) { CHECK(ctx, run.out.find("No Errors Found.") != std::string::npos && run.out.find("\r" + std::to_string(K) + "\n") != std::string::npos, "menu: random graphs were not processed"); }); break; }
        case 6: { setMode((x & 1) ? 'm' : 'n'); s += std::string("p\n") + std::to_string(std::max(5, n)) + "\n" + ((x & 2) ? "y" : "n") + "\nk\n"; std::string f = (x & 1) ? "maxPlanarEdgeList.txt" : "nonPlanarEdgeList.txt"; if (x & 2) { allowed.insert(f); allowed.insert(f + ".out.txt"); } bool mx = x & 1, sv = x & 2; int nn = std::max(5, n);
          after.push_back([=, &ctx](const Run &) { if (!sv) return; UG u = parseEdgeList(ctx, get(f), nn, f); CHECK(ctx, u.m() == 3 * nn - (mx ? 6 : 5) && isPlanar(u) == mx, "menu: the saved random graph is wrong"); UG h = parseEdgeList(ctx, get(f + ".out.txt"), nn, f + ".out.txt"); CHECK(ctx, mx ? sameEdges(h, u) : !!(subdivisionOf(h) & (S_K5 | S_K33)), "menu: the saved result is wrong"); }); break; }
        case 7: s += "h\nk\n"; after.push_back([=, &ctx](const Run &run) { CHECK(ctx, run.out.find("Common usages") != std::string::npos, "menu: no help"); }); break;
        default: { static const char *inv[] = {"z", "7", "?", "w", "-"}; s += std::string(inv[x % 5]) + "\nk\n"; after.push_back([=, &ctx](const Run &run) { CHECK(ctx, run.out.find("Invalid menu choice") != std::string::npos, "menu: an invalid choice was not reported"); }); } } }
    int end = c.get("end"); if (end < 2) s += "q\n"; else if (end == 3) { static const char *tail[] = {"x\n", "x\nnofile", "x\nnofile\nout\n", "x\nnofile\nout\ng", "t\n", "t\nnofile\nout\n", "t\nnofile\nout\np\n", "r\n", "r\ns\np\n", "r\ns\np\nnofile\n", "p", "r\nq", "h\n", "r\nm\np\n7\n"}; s += tail[c.get("clock") % 14]; }
    if (end == 3 && c.get("clock") % 14 == 10 && mode == 'r') s = s.substr(0, s.size() - 1); // the prompts for random graphs take the midpoint of a billion at end of input
    if (end == 3 && c.get("clock") % 14 == 10 && (mode == 'm' || mode == 'n')) s = s.substr(0, s.size() - 1);
    Run x = app(ctx, {}, s, c.get("clock"), 20, nullptr, c.get("piped")); CHECK(ctx, x.rc == 0, "menu: exit code %d", x.rc); for (auto &f : after) f(x); noNewFiles(ctx, {}, allowed, "menu"); if (end < 3) CHECK(ctx, x.err.empty(), "menu: printed an error '%.100s'", x.err.c_str());
    ctx.label(end < 2 ? "quit" : end == 2 ? "end of input at the menu" : "end of input inside an operation"); ctx.nontrivial = k >= 2 && graphs;
  }, 6000, 50000, 60, false, 32, false, {}});
// ------------------------------------------------------------------ L07
static Reg l07({"L07", "Command lines of every kind (specific, legacy, transform, test-all, random, random maximal planar and nonplanar), made wrong in one way: arguments missing, unknown command, unknown, empty or undashed algorithm or format, missing input, directory or malformed text as input, name over the length limit, output into a missing directory, a directory or a full device, second output likewise; quiet or not. Oracle: the exit code is the error code (never 0 or 1), an error message is printed unless quiet, and no unrelated file is written. Non-trivial: all.",
  [](Rng &r, Case &c, bool) { c.kind = "wrong command line"; c.p["cmd"] = r.below(7); c.p["how"] = r.below(16); c.p["quiet"] = r.below(2); c.p["alg"] = r.below(A_COUNT); c.p["n"] = r.range(1, 12); c.p["seed"] = (long)(r.next() >> 20); },
  [](const Case &c, Ctx &ctx) {
    Rng r(c.get("seed")); int cmd = c.get("cmd"), how = c.get("how"), n = std::max<long>(1, c.get("n")), a = c.get("alg") % A_COUNT; bool quiet = c.get("quiet") && cmd != 1; freshDir(); mkdir(W("dir").c_str(), 0755); std::string kind; UG g = ofOrder(r, n, kind); bool g6 = cmd == 3; put("in.txt", g6 ? g6Text(g) : graphText(g, r.below(FM_COUNT)));
    // words of the command: parts name argument positions
    std::string A = cmd == 2 ? std::string("-") + "gam"[r.below(3)] : algArg[a], I = "in.txt", O = "out.txt", O2 = "second.txt"; bool second = r.chance(1, 2), hasA = cmd == 0 || cmd == 2 || cmd == 3 || cmd == 4, hasI = cmd <= 3, hasO = cmd != 4, missing = false; std::string opt = cmd == 0 ? "-s" : cmd == 2 ? "-x" : cmd == 3 ? "-t" : cmd == 4 ? "-r" : cmd == 5 ? "-rm" : "-rn"; std::string why;
    auto primaryWritten = [&] { if (cmd == 0) { bool f = expectFree(g, a); return a == A_K23 || a == A_K33 || a == A_K4 ? !f : f; } if (cmd == 1) return isPlanar(g); return true; };
    auto secondWritten = [&] { if (cmd == 0) { bool f = expectFree(g, a); return (a == A_DRAW && f && g.m() > 0) || ((a == A_PLANAR || a == A_OUTER) && !f); } if (cmd == 1) return !isPlanar(g); return cmd >= 5; };
    static const char *badOut[] = {"nodir/out.txt", "dir", "/dev/full", ""}; std::string allowedOut;
    switch (how) {
      case 0: case 1: missing = true; why = "arguments missing"; break;
      case 2: if (cmd == 1) return; opt = std::vector<std::string>{"-z", "-", "--help", "-S", "-rx", "-q", "-ss"}[r.below(7)]; why = "unknown command"; if (opt == "-q") quiet = false; break;
      case 3: if (!hasA) return; A = std::vector<std::string>{"-x", "-P", "-1", "-5", "-q", "-Z", "--"}[r.below(7)]; if (A == "-q") A = quiet ? "-q" : "-w"; why = "unknown algorithm or format"; break;
      case 4: if (!hasA) return; A = "-"; why = "empty algorithm or format"; break;
      case 5: if (!hasA) return; A = std::vector<std::string>{A.substr(1), "", "p", "infile", "+p", "0"}[r.below(6)]; why = "algorithm or format without a dash"; break;
      case 6: if (!hasI) return; I = std::vector<std::string>{"nofile.txt", "nodir/in.txt", "in.txt/x", ""}[r.below(4)]; if (I.empty() && cmd == 1) return; why = "no such input"; break;
      case 7: if (!hasI) return; I = "dir"; why = "directory as input"; break;
      case 8: if (!hasI) return; put("in.txt", std::vector<std::string>{"", "\n", "hello world\n", "N=3\n1: 2 0\n", "N=-4\n", "3\n 0", "LEDA.GRAPH\nvoid\n", "N=2\n1: 9 0\n2: 1 0\n", "B", "Bwww\n", ">>graph6<", "~~??@?\n", "0\n", std::string("\0\0", 2)}[r.below(14)]); why = "malformed input"; break;
      case 9: if (cmd != 0) return; I = std::string(r.range(129, 1500), 'l'); if (r.chance(1, 3) && I.size() < 200) put(I, get("in.txt")); why = "input name too long"; break;
      case 10: if (!hasI || cmd == 0) return; I = std::string(r.range(256, 3000), 'l'); why = "overlong input name"; break;
      case 11: if (cmd != 3 && cmd != 2 && cmd != 1) return; O = std::string(r.range(256, 3000), 'o'); if (!primaryWritten()) return; why = "overlong output name"; break;
      case 12: case 13: if (!hasO || !primaryWritten()) return; O = badOut[r.below(4)]; why = "output cannot be written"; break;
      default: if (cmd != 0 && cmd != 1 && cmd < 5) return; second = true; if (!secondWritten()) return; O2 = badOut[r.below(cmd == 0 ? 3 : 4)]; why = "second output cannot be written"; allowedOut = "out.txt"; }
    Args args; std::string in = "n\n"; if (cmd != 1) { args.push_back(opt); if (quiet) args.push_back("-q"); }
    size_t fixed = args.size(); int required; // words after the option that the command needs
    switch (cmd) { case 0: args.insert(args.end(), {A, I, O}); required = 3; if (second) args.push_back(O2); break; case 1: args.insert(args.end(), {I, O}); required = 2; if (second) { args.push_back("-n"); args.push_back(O2); } break; case 2: case 3: args.insert(args.end(), {A, I, O}); required = 3; break; case 4: args.insert(args.end(), {A, "2", std::to_string(n)}); required = 3; break; default: args.insert(args.end(), {std::to_string(n), O}); required = 2; if (second) args.push_back(O2); }
    if (missing) { int keep = r.below(required); if (cmd == 1) { if (keep == 0) return; } args.resize(fixed + keep); if (cmd == 1 && !isPlanar(g)) return; /* then no output name is needed */ }
    if (cmd == 1 && !args.empty() && !args[0].empty() && args[0][0] == '-') return;
    auto before = files(); Run x = app(ctx, args, in, 12345); std::string line = joined(args); int want = cmd == 1 ? 254 : 255;
    CHECK(ctx, x.rc == want, "error: %s (%s) exited with %d instead of %d", line.c_str(), why.c_str(), x.rc, want);
    bool q = args.size() >= 2 && args[1] == "-q"; if (q) checkQuiet(ctx, x, line);
    std::set<std::string> allowed; for (auto &f : {O, O2, allowedOut}) allowed.insert(f); noNewFiles(ctx, before, allowed, line); if (how <= 11 && !(cmd == 3 && (how == 7 || how == 8))) CHECK(ctx, files() == before, "files: %s (%s) wrote a file", line.c_str(), why.c_str());
    ctx.label(why); ctx.nontrivial = true;
  }, 12000, 100000, 60, false, 32, false, {"seed"}});
// ------------------------------------------------------------------ L08
static UG parseMatrix(Ctx &ctx, const std::string &t, int n, const std::string &name) { // the writer's form: the upper triangle
  std::string h = std::to_string(n) + "\n"; CHECK(ctx, t.compare(0, h.size(), h) == 0, "matrix: %s starts with '%.20s'", name.c_str(), t.c_str()); UG u(n); size_t pos = h.size();
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { while (pos < t.size() && (t[pos] == ' ' || t[pos] == '\n')) ++pos; CHECK(ctx, pos < t.size() && (t[pos] == '0' || t[pos] == '1'), "matrix: %s: row %d is wrong", name.c_str(), i); if (t[pos++] == '1') u.e.push_back({i, j}); }
  CHECK(ctx, matrixText(u) == t, "matrix: %s has another layout than an adjacency matrix", name.c_str()); return u;
}
// a fingerprint that is the same for isomorphic graphs (the files written after an embedding are in another vertex order)
static std::vector<uint64_t> shape(const UG &g) { std::vector<uint64_t> c(g.n, 1); Adj a = adjOf(g); for (int t = 0; t < 5; ++t) { auto d = c; for (int v = 0; v < g.n; ++v) { std::vector<uint64_t> x; for (int w : a[v]) x.push_back(c[w]); std::sort(x.begin(), x.end()); x.push_back(c[v]); d[v] = hash64(x.data(), x.size() * 8); } c = d; } std::sort(c.begin(), c.end()); return c; }
static Reg l08({"L08", "Menu sessions that process random graphs with every algorithm: 1-25 random graphs of order 1-40, keeping the original graphs, the embeddable ones, the obstructed ones and the embeddings (each wanted or not, each directory present or not), or one random maximal planar or nonplanar graph saved as edge lists; at a random clock value. Oracle: own decision procedures on the saved graphs give the numbers announced; the other files hold the same graph (up to vertex order), a valid embedding of it, or a Kuratowski-type obstruction; nothing else is written and missing directories are reported once. Non-trivial: something is saved and N is at least 5.",
  [](Rng &r, Case &c, bool) { c.kind = "random graphs in the menu"; c.p["mode"] = r.chance(3, 4) ? 0 : r.range(1, 2); c.p["alg"] = r.below(A_COUNT); c.p["k"] = r.chance(2, 3) ? r.range(1, 10) : r.range(11, 25); c.p["n"] = r.chance(1, 5) ? r.range(1, 4) : r.range(5, r.chance(1, 4) ? 40 : 12); c.p["want"] = r.chance(1, 3) ? 15 : r.below(16); c.p["dirs"] = r.chance(1, 2) ? 15 : r.below(16); c.p["upper"] = r.below(4); c.p["before"] = r.chance(1, 5); c.p["clock"] = (long)(r.next() >> 34); },
  [](const Case &c, Ctx &ctx) {
    int mode = c.get("mode"), a = c.get("alg") % A_COUNT, K = c.get("k"), n = c.get("n"), want = c.get("want"), dirs = c.get("dirs"); if (K < 1 || n < 1) return; freshDir(); std::string A(1, algArg[a][1]), s; bool upper = c.get("upper") & 1; if (upper) A[0] = (char)toupper(A[0]); const char *Y = upper ? "Y\n" : "y\n", *N = c.get("upper") & 2 ? "N\n" : "n\n"; ctx.nontrivial = n >= 5 && (want & (mode ? 1 : 15));
    if (c.get("before")) s += std::string("r\nr\nn\nn\nn\nn\n") + A + "\n3\n5\nk\n";
    if (mode) { // one random graph
      bool rn = mode == 2, sv = want & 1; s += std::string("r\n") + (rn ? "n\n" : "m\n") + A + "\n" + std::to_string(n) + "\n" + (sv ? Y : N) + "k\nq\n"; Run x = app(ctx, {}, s, c.get("clock"), 20, nullptr, c.get("piped")); CHECK(ctx, x.rc == 0, "menu: exit code %d", x.rc); CHECK(ctx, x.err.empty(), "menu: printed an error '%.100s'", x.err.c_str());
      std::string f = rn ? "nonPlanarEdgeList.txt" : "maxPlanarEdgeList.txt", o = f + ".out.txt"; std::set<std::string> al; if (sv) al = {f, o}; auto now = files(); CHECK(ctx, !sv || now.count(f), "files: %s is missing", f.c_str()); for (auto &g : now) CHECK(ctx, al.count(g), "files: the session wrote '%s'", g.c_str()); ctx.label(rn ? "nonplanar" : "maximal planar"); if (!sv) return;
      UG u = parseEdgeList(ctx, get(f), n, f); if (n >= 3) { CHECK(ctx, u.m() == std::min(n * (n - 1) / 2, 3 * n - 6 + rn), "random: a graph of %d vertices with %d edges", n, u.m()); CHECK(ctx, isPlanar(u) == !(rn && n >= 5), "random: planarity is wrong"); }
      bool free = expectFree(u, a); CHECK(ctx, x.out.find(verdictText(a, free)) != std::string::npos, "message: '%s' was not printed for the saved graph of %d vertices", verdictText(a, free).c_str(), n);
      CHECK(ctx, now.count(o) || (a >= A_K23 && free) || (a == A_DRAW && !free), "files: %s is missing", o.c_str()); if (!now.count(o)) return; /* there is no result to save */ UG h = parseEdgeList(ctx, get(o), n, o); if (a == A_DRAW && !free) return; if (free) CHECK(ctx, sameEdges(h, u), "edge list: %s is not the saved graph", o.c_str()); else { auto es = edgeSet(u); for (auto &e : h.e) CHECK(ctx, es.count(e), "edge list: %s has the edge %d %d, which is not in the graph", o.c_str(), e.first + 1, e.second + 1); CHECK(ctx, subdivisionOf(h) & algKinds[a], "edge list: %s is not the promised obstruction", o.c_str()); }
      return;
    }
    static const char *dn[] = {"random", "embedded", "obstructed", "adjlist"}; s += "r\nr\n"; for (int d = 0; d < 4; ++d) { s += want >> d & 1 ? Y : N; if (dirs >> d & 1) mkdir(W(dn[d]).c_str(), 0755); } s += A + "\n" + std::to_string(K) + "\n" + std::to_string(n) + "\nk\nq\n";
    Run x = app(ctx, {}, s, c.get("clock"), 20, nullptr, c.get("piped")); CHECK(ctx, x.rc == 0, "menu: exit code %d", x.rc); CHECK(ctx, x.out.find("No Errors Found.") != std::string::npos && x.out.find("\r" + std::to_string(K) + "\n") != std::string::npos, "menu: the random graphs were not processed");
    const char *key = a == A_PLANAR || a == A_OUTER ? "Num Embedded=" : a == A_DRAW ? "Num Graphs Embedded and Drawn=" : "Of the generated graphs, "; size_t p = x.out.rfind(key); CHECK(ctx, p != std::string::npos, "statistics: '%s' was not printed", key); int ok = atoi(x.out.c_str() + p + strlen(key)); CHECK(ctx, ok >= 0 && ok <= K, "statistics: %d of %d", ok, K);
    auto bare = [&](std::string t) { if (a == A_DRAW) { size_t q = t.find("<DrawPlanar>"); if (q != std::string::npos) t.resize(q); } return t; }; // the drawing section, if any
    bool kOuter = a == A_PLANAR || a == A_OUTER; int use = want & dirs, any = std::min(K, 10); auto now = files(); std::set<std::string> rest = now; auto name = [&](int d, int i) { return std::string(dn[d]) + "/" + std::to_string(i) + ".txt"; }; int freeCount = 0;
    int counts[4] = {K, ok, K - ok, ok}; // how many graphs each directory was asked to keep
    for (int d = 0; d < 4; ++d) { int got = 0; for (int i = 0; i < 10; ++i) { got += now.count(name(d, i)); rest.erase(name(d, i)); }
      if (!(use >> d & 1)) CHECK(ctx, !got, "files: %d files in %s, which was not %s", got, dn[d], want >> d & 1 ? "there" : "asked for"); else if (d == 0) for (int i = 0; i < any; ++i) CHECK(ctx, now.count(name(0, i)), "files: %s is missing", name(0, i).c_str()); else if (d != 2 || kOuter) CHECK(ctx, (got > 0) == (counts[d] > 0) && got <= counts[d] && (K > 10 || got == counts[d]), "files: %d files in %s, %d expected", got, dn[d], counts[d]);
      bool told = x.err.find(std::string("\"") + dn[d] + "/") != std::string::npos, must = (want >> d & 1) && !(dirs >> d & 1) && counts[d] > 0; if (d != 2 || kOuter || !must) CHECK(ctx, told == must, "message: the directory %s was %sreported missing", dn[d], told ? "" : "not "); if (told) { size_t q = x.err.find(std::string("\"") + dn[d] + "/"); CHECK(ctx, x.err.find(std::string("\"") + dn[d] + "/", q + 1) == std::string::npos, "message: %s was reported missing more than once", dn[d]); } }
    CHECK(ctx, rest.empty(), "files: the session wrote '%s'", rest.begin()->c_str()); if (!(want & ~dirs)) CHECK(ctx, x.err.empty(), "menu: printed an error '%.100s'", x.err.c_str());
    for (int i = 0; i < any; ++i) { // digit i; the last graph with it is graph number i + 10 * j
      UG g(n), e(n); bool haveG = use & 1, haveE = now.count(name(1, i)), haveL = now.count(name(3, i)), haveO = now.count(name(2, i)), sure = false, free = false;
      if (haveG) { std::string f = name(0, i); g = parsePlainList(ctx, bare(get(f)), n, false, f); CHECK(ctx, n == 1 || isConnected(g), "random: %s is not connected", f.c_str()); free = expectFree(g, a); freeCount += free; sure = true; }
      if (haveE) { e = parseMatrix(ctx, bare(get(name(1, i))), n, name(1, i)); CHECK(ctx, expectFree(e, a), "files: %s is not embeddable", name(1, i).c_str()); if (sure && free) CHECK(ctx, shape(e) == shape(g), "files: %s is not the graph of %s", name(1, i).c_str(), name(0, i).c_str()); ctx.label("embedded"); }
      if (haveL) { Adj rot; UG l = parsePlainList(ctx, bare(get(name(3, i))), n, false, name(3, i), &rot); if (a == A_DRAW) checkDrawingText(ctx, get(name(3, i)), l, false, name(3, i), nullptr); if (haveE) CHECK(ctx, sameEdges(l, e), "files: %s and %s differ", name(3, i).c_str(), name(1, i).c_str()); if (sure && free) CHECK(ctx, shape(l) == shape(g), "files: %s is not the graph of %s", name(3, i).c_str(), name(0, i).c_str()); if (contentDefined(a, OK)) { std::string b = badEmbedding(l, rot, a == A_OUTER); CHECK(ctx, b.empty(), "embedding: %s: %s", name(3, i).c_str(), b.c_str()); } ctx.label("adjacency lists"); }
      if (haveO) { UG o = parseMatrix(ctx, get(name(2, i)), n, name(2, i)); CHECK(ctx, contentDefined(a, NONEMBEDDABLE) ? !!(subdivisionOf(o) & algKinds[a]) : true, "obstruction: %s is something else", name(2, i).c_str()); if (sure && !free) CHECK(ctx, o.m() <= g.m(), "obstruction: %s has more edges than the graph", name(2, i).c_str()); ctx.label("obstructed"); }
      if (K <= 10 && sure && (use & 2)) CHECK(ctx, !!now.count(name(1, i)) == free, "files: %s %s", name(1, i).c_str(), free ? "is missing" : "should not exist");
      if (K <= 10 && sure && (use & 4) && kOuter) CHECK(ctx, haveO == !free, "files: %s %s", name(2, i).c_str(), free ? "should not exist" : "is missing");
      if (K <= 10 && sure && (use & 8)) CHECK(ctx, !!now.count(name(3, i)) == free, "files: %s %s", name(3, i).c_str(), free ? "is missing" : "should not exist");
    }
    if (K <= 10 && (use & 1)) CHECK(ctx, freeCount == ok, "statistics: %d of the %d saved graphs are free of the obstruction, but %d were announced", freeCount, K, ok);
    ctx.label("random graphs");
  }, 8000, 60000, 60, false, 32, false, {}});
// ------------------------------------------------------------------ L09
static Reg l09({"L09", "The program's functions that process a specific graph, transform a graph or test a g6 file, called directly with every combination of input in a file or a string (with or without a name for it), output to a file or a string, second output to a file, a string or none, on graphs in every format and on malformed text; 1-3 calls in one process. Oracle: own decision procedures and certificate checkers; the result code, the texts and files, the base flag; strings given away are freed, and nothing else is written. Non-trivial: a string takes part in a call.",
  [](Rng &r, Case &c, bool) { c.kind = "calls"; int k = r.range(1, 3); for (int i = 0; i < k; ++i) c.items.push_back({r.below(5), r.below(A_COUNT), r.below(FM_COUNT), r.below(4), r.below(3), r.below(4), r.below(12), (int)(r.next() >> 34)}); c.p["n"] = r.range(1, r.chance(1, 5) ? 30 : 12); },
  [](const Case &c, Ctx &ctx) {
    freshDir(); int n = std::max<long>(1, c.get("n")), k = 0; std::set<std::string> allowed; std::vector<std::function<void(const Run &)>> after; std::vector<std::function<void(FILE *)>> calls; std::string rep = scratchFile("report");
    struct Res { int rc = 0, base = -7; bool has1 = false, has2 = false; std::string s1, s2; }; auto results = std::make_shared<std::vector<Res>>();
    for (auto &it : c.items) { if (it.size() < 8) continue; int idx = k++; Rng r(it[7]); int op = it[0], a = it[1] % A_COUNT, fmt = it[2] % FM_COUNT, src = it[3] & 3, dst = it[4] % 3, snd = it[5] & 3; std::string kind; UG g = ofOrder(r, n, kind); bool bad = it[6] == 0, zero = zeroBased(fmt); std::string id = "c" + std::to_string(k), in = id + ".in", o1 = id + ".out", o2 = id + ".second", t = graphText(g, fmt);
      static const char *junk[] = {"", "hello world\n", "N=3\n1: 2 0\n", "N=-4\n", "3\n 0", "LEDA.GRAPH\nvoid\n", "N=2\n1: 9 0\n2: 1 0\n", "Bwww\n", "~~??@?\n", "0\n"}; if (bad) t = junk[r.below(10)];
      if (src >= 2 && fmt == FM_LEDA && op != 4) bad = true; /* documented: this format is not read from strings */ bool str = src >= 2, named = src != 2, overlong = str && named && r.chance(1, 6), out1 = dst == 1; put(in, t); allowed.insert(in); std::string base = overlong ? std::string(r.range(129, 2000), 'b') : in; ctx.nontrivial |= str || out1 || snd == 2;
      if (op < 3) { // a specific graph; o1 given (dst 0), in a string (1), or named after the input (2)
        if (dst == 2 && !named) dst = 1, out1 = true; bool s2 = snd == 2 && out1, f2 = snd == 1, e2 = snd == 3 && (dst == 0 || named);
        bool free = expectFree(g, a), search = a >= A_K23, prim = search ? !free : free, obst = (a == A_PLANAR || a == A_OUTER) && !free; if (a == A_DRAW && !free) prim = false; std::string name1 = dst == 0 ? o1 : in + "." + algFile[a] + ".out.txt";         bool write2 = s2 ? a == A_DRAW && free : (f2 || e2) && (obst || (a == A_DRAW && free)); std::string name2 = f2 ? o2 : a == A_DRAW ? name1 + ".render.txt" : name1; bool strObst = s2 && obst, draw = a == A_DRAW && free;
        calls.push_back([=](FILE *f) { char *q1 = nullptr, *q2 = nullptr; std::vector<char> I(base.begin(), base.end()), O(o1.begin(), o1.end()), P(o2.begin(), o2.end()); I.push_back(0); O.push_back(0); P.push_back(0); char empty[1] = {0}; char *text = str ? dupStr(t) : nullptr;
          int rc = SpecificGraph(algArg[a][1], named ? I.data() : nullptr, dst == 0 ? O.data() : nullptr, f2 ? P.data() : e2 ? empty : nullptr, text, out1 ? &q1 : nullptr, s2 ? &q2 : nullptr);
          fprintf(f, "%d 0 %ld %ld\n", rc, q1 ? (long)strlen(q1) : -1L, q2 ? (long)strlen(q2) : -1L); if (q1) fwrite(q1, 1, strlen(q1), f); if (q2) fwrite(q2, 1, strlen(q2), f); if (q1) ::free(q1); if (q2) ::free(q2); });
        bool failName = overlong && dst != 0 && ((prim && !out1) || (e2 && write2)), fails = bad || failName; if (!fails) { if (prim && !out1) allowed.insert(name1); if (write2 && !s2) allowed.insert(name2); }
        after.push_back([=, &ctx](const Run &) { const Res &R = (*results)[idx]; std::string what = std::string("SpecificGraph ") + algArg[a] + (str ? named ? " from a named string" : " from a string" : " from a file"); int want = fails ? NOTOK : free ? OK : NONEMBEDDABLE; CHECK(ctx, R.rc == want, "%s: returned %d instead of %d (%s)", what.c_str(), R.rc, want, kind.c_str()); if (fails) { CHECK(ctx, !bad || (!R.has1 && !R.has2), "%s: failed but gave output", what.c_str()); return; }
          bool w1 = prim || strObst; if (out1) CHECK(ctx, R.has1 == w1, "%s: output string %s", what.c_str(), w1 ? "missing" : "unexpected"); CHECK(ctx, R.has2 == (s2 && draw), "%s: second output string %s", what.c_str(), R.has2 ? "unexpected" : "missing"); std::string t1, t2; if (out1) t1 = R.s1; else if (prim) { CHECK(ctx, files().count(name1), "%s: did not write %s", what.c_str(), name1.c_str()); t1 = get(name1); }
          if (write2) { if (s2) t2 = R.s2; else { CHECK(ctx, files().count(name2), "%s: did not write %s", what.c_str(), name2.c_str()); t2 = get(name2); } }
          if (w1) { if (a == A_DRAW) checkDrawingText(ctx, t1, g, zero, what, write2 ? &t2 : nullptr); else if (free) checkEmbeddingText(ctx, t1, g, zero, a == A_OUTER, what); else checkSubgraphText(ctx, t1, g, zero, algKinds[a], what); }
          if (write2 && obst) checkSubgraphText(ctx, t2, g, zero, algKinds[a], what); });
      } else if (op == 3) { // transform
        if (dst == 2) dst = 0, out1 = false; int to = r.below(3); bool wrong = r.chance(1, 12) && !str, wantBase = r.chance(1, 2); std::string com = wrong ? std::vector<std::string>{"-x", "g", "-", ""}[r.below(4)] : std::string("-") + "gam"[to]; if (!bad && !wrong && !out1) allowed.insert(o1); bool fails = bad || wrong;
        calls.push_back([=](FILE *f) { char *q = nullptr; int b = -7; std::vector<char> I(in.begin(), in.end()), O(o1.begin(), o1.end()), C(com.begin(), com.end()); I.push_back(0); O.push_back(0); C.push_back(0); char *text = str ? dupStr(t) : nullptr; int rc = TransformGraph(C.data(), named ? I.data() : nullptr, text, wantBase ? &b : nullptr, out1 ? nullptr : O.data(), out1 ? &q : nullptr);
          fprintf(f, "%d %d %ld -1\n", rc, b, q ? (long)strlen(q) : -1L); if (q) { fwrite(q, 1, strlen(q), f); ::free(q); } });
        after.push_back([=, &ctx](const Run &) { const Res &R = (*results)[idx]; std::string what = "TransformGraph " + com; CHECK(ctx, R.rc == (fails ? NOTOK : OK), "%s: returned %d (%s)", what.c_str(), R.rc, kind.c_str()); CHECK(ctx, R.has1 == (out1 && !fails), "%s: output string %s", what.c_str(), R.has1 ? "unexpected" : "missing"); if (fails) return; if (wantBase) CHECK(ctx, R.base == (zero ? 1 : 0), "%s: base flag %d for format %d", what.c_str(), R.base, fmt);
          std::string x; if (out1) x = R.s1; else { CHECK(ctx, files().count(o1), "%s: did not write %s", what.c_str(), o1.c_str()); x = get(o1); } if (to == 1) CHECK(ctx, sameEdges(parsePlainList(ctx, x, g.n, zero, what), g), "%s: another graph", what.c_str()); else CHECK(ctx, to == 0 ? isG6(x, g) : x == matrixText(g), "%s: another graph", what.c_str()); });
      } else { // test all
        int cnt = r.range(1, 5), ok = expectFree(g, a); std::string all = g6Text(g); for (int i = 1; i < cnt; ++i) { UG h = ofOrder(r, n, kind); all += g6Text(h); ok += expectFree(h, a); } if (dst == 2) dst = 0, out1 = false; bool wrong = r.chance(1, 12); std::string com = wrong ? std::vector<std::string>{"-x", "p", "-", "", "-P"}[r.below(5)] : algArg[a]; put(in, all); if (!wrong && !out1) allowed.insert(o1);
        calls.push_back([=](FILE *f) { char *q = nullptr; std::vector<char> I(in.begin(), in.end()), O(o1.begin(), o1.end()), C(com.begin(), com.end()); I.push_back(0); O.push_back(0); C.push_back(0); int rc = TestAllGraphs(C.data(), I.data(), out1 ? nullptr : O.data(), out1 ? &q : nullptr); fprintf(f, "%d 0 %ld -1\n", rc, q ? (long)strlen(q) : -1L); if (q) { fwrite(q, 1, strlen(q), f); ::free(q); } });
        std::string line = std::string(algArg[a]) + " " + std::to_string(cnt) + " " + std::to_string(ok) + " " + std::to_string(cnt - ok) + " SUCCESS\n";
        after.push_back([=, &ctx](const Run &) { const Res &R = (*results)[idx]; std::string what = "TestAllGraphs " + com; CHECK(ctx, R.rc == (wrong ? NOTOK : OK) || (!wrong && R.rc == NONEMBEDDABLE), "%s: returned %d", what.c_str(), R.rc); CHECK(ctx, R.has1 == (out1 && !wrong), "%s: output string %s", what.c_str(), R.has1 ? "unexpected" : "missing"); if (wrong) return; std::string x = out1 ? R.s1 : get(o1), h = "FILENAME=\"" + in + "\" DURATION=\""; CHECK(ctx, x.compare(0, h.size(), h) == 0 && x.size() > line.size() && x.compare(x.size() - line.size() - 1, line.size() + 1, "\n" + line) == 0, "%s: wrote '%.120s' instead of '%s'", what.c_str(), x.c_str(), line.c_str()); });
      } }
    if (calls.empty()) return;
    Run x = inChild(ctx, [&] { FILE *f = fopen(rep.c_str(), "wb"); for (auto &q : calls) q(f); fclose(f); return 0; }, "calls", "", 12345, 20);
    std::string t = slurp(rep); size_t pos = 0; for (size_t i = 0; i < calls.size(); ++i) { Res R; long l1 = -1, l2 = -1; size_t nl = t.find('\n', pos); CHECK(ctx, nl != std::string::npos && sscanf(t.c_str() + pos, "%d %d %ld %ld", &R.rc, &R.base, &l1, &l2) == 4, "calls: no report"); pos = nl + 1; if (l1 >= 0) { R.has1 = true; R.s1 = t.substr(pos, l1); pos += l1; } if (l2 >= 0) { R.has2 = true; R.s2 = t.substr(pos, l2); pos += l2; } results->push_back(R); }
    for (auto &f : after) f(x); noNewFiles(ctx, {}, allowed, "calls");
  }, 8000, 60000, 60, false, 32, false, {}});
