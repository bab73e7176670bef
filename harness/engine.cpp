#include "engine.h"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <unordered_set>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "memtrack.h"

std::string g_scratch;
static std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
void registerProp(const Prop &p) { props().push_back(p); }

uint64_t hash64(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

void Ctx::fail(const char *fmt, ...) {
  char buf[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  throw Failure{buf};
}

std::string Case::text() const {
  std::string s = "case " + (kind.empty() ? std::string("-") : kind) + "\n";
  for (auto &k : p) s += "p " + k.first + " " + std::to_string(k.second) + "\n";
  for (auto &it : items) {
    s += "i";
    for (int x : it) { s += ' '; s += std::to_string(x); }
    s += "\n";
  }
  if (!bytes.empty()) {
    s += "b ";
    static const char *hx = "0123456789abcdef";
    for (unsigned char c : bytes) { s += hx[c >> 4]; s += hx[c & 15]; }
    s += "\n";
  }
  s += "end\n";
  return s;
}
uint64_t Case::hash() const {
  uint64_t h = 1469598103934665603ull;
  for (auto &k : p) { h = hash64(k.first.data(), k.first.size(), h); h = hash64(&k.second, sizeof(long), h); }
  for (auto &it : items) { h = hash64(it.data(), it.size() * sizeof(int), h); h = hash64("|", 1, h); }
  return hash64(bytes.data(), bytes.size(), h);
}

static std::vector<Case> parseCases(const std::string &text) {
  std::vector<Case> out; Case cur; bool open = false;
  size_t pos = 0;
  while (pos < text.size()) {
    size_t nl = text.find('\n', pos); if (nl == std::string::npos) nl = text.size();
    std::string line = text.substr(pos, nl - pos); pos = nl + 1;
    if (line.rfind("case ", 0) == 0) { cur = Case(); cur.kind = line.substr(5); open = true; }
    else if (!open) continue;
    else if (line == "end") { out.push_back(cur); open = false; }
    else if (line[0] == 'p') { char k[256]; long v; if (sscanf(line.c_str(), "p %255s %ld", k, &v) == 2) cur.p[k] = v; }
    else if (line[0] == 'i') {
      std::vector<int> it; const char *c = line.c_str() + 1; char *e;
      for (;;) { long v = strtol(c, &e, 10); if (e == c) break; it.push_back((int)v); c = e; }
      cur.items.push_back(it);
    } else if (line[0] == 'b') {
      auto val = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
      for (size_t i = 2; i + 1 < line.size(); i += 2) cur.bytes += (char)(val(line[i]) * 16 + val(line[i + 1]));
    }
  }
  return out;
}

// ---------------------------------------------------------------- execution
struct Slot { volatile long idx; volatile int failed; char msg[4096]; };

static Slot *g_slot;
static void onCpu(int) {
  strcpy(g_slot->msg, "hang: CPU limit for one case exceeded (non-termination)");
  g_slot->failed = 1;
  _exit(78);
}
static void armCpu(int sec) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static int g_cpuDiv = 1; // a suspected hang is shrunk with a fraction of the limit and confirmed with all of it
static void runOne(const Prop &pr, const Case &c, Ctx &ctx) {
  armCpu(std::max(1, pr.cpuLimit / g_cpuDiv));
  mt_begin();
  pr.check(c, ctx);
  std::string leak = mt_end();
  if (!leak.empty()) ctx.fail("leak: %s", leak.c_str());
  armCpu(0);
}

static uint64_t caseSeed(uint64_t seed, const std::string &id, long idx) {
  uint64_t h = hash64(&seed, sizeof seed);
  h = hash64(id.data(), id.size(), h);
  h = hash64(&idx, sizeof idx, h);
  Rng r(h); r.next(); return r.next();
}

// Runs a list of cases in a forked child. Returns "" if all passed, else message; *which = failing position.
static std::string runIsolated(const Prop &pr, const std::vector<Case> &cs, int *which, const std::string &errFile) {
  Slot *sl = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sl, 0, sizeof *sl); sl->idx = -1;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    g_slot = sl; signal(SIGPROF, onCpu);
    int fd = open(errFile.empty() ? "/dev/null" : errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
    for (size_t i = 0; i < cs.size(); ++i) {
      sl->idx = (long)i;
      Ctx ctx; ctx.replay = true;
      try { runOne(pr, cs[i], ctx); }
      catch (Failure &f) { snprintf(sl->msg, sizeof sl->msg, "%s", f.msg.c_str()); sl->failed = 1; _exit(77); }
    }
    _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::string r;
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    if (sl->failed) r = sl->msg;
    else if (WIFSIGNALED(st)) r = std::string("crash: signal ") + std::to_string(WTERMSIG(st));
    else r = "crash: sanitizer or abnormal exit, status " + std::to_string(WEXITSTATUS(st));
    if (which) *which = (int)sl->idx;
  }
  munmap(sl, sizeof(Slot));
  return r;
}
static std::string tagOf(const std::string &m) { return m.substr(0, m.find(':')); }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Generic shrinker over the last case of the list (and over the list prefix).
struct Shrinker {
  const Prop &pr; std::vector<Case> cs; std::string tag, msg; double deadline; long tries = 0;
  bool fails(const std::vector<Case> &t) {
    if (now() > deadline || tries > 6000) return false;
    ++tries;
    int w; std::string m = runIsolated(pr, t, &w, "");
    if (m.empty() || tagOf(m) != tag) return false;
    msg = m; return true;
  }
  bool tryLast(const Case &c) { std::vector<Case> t = cs; t.back() = c; if (fails(t)) { cs = t; return true; } return false; }
  void run() {
    // drop preceding cases
    for (size_t chunk = cs.size() / 2; chunk >= 1 && cs.size() > 1; chunk /= 2)
      for (size_t i = 0; i + 1 < cs.size();) {
        std::vector<Case> t = cs; size_t n = std::min(chunk, cs.size() - 1 - i);
        t.erase(t.begin() + i, t.begin() + i + n);
        if (fails(t)) cs = t; else i += n;
      }
    bool progress = true;
    while (progress && now() < deadline) {
      progress = false;
      // items: ddmin
      for (size_t chunk = std::max<size_t>(1, cs.back().items.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < cs.back().items.size();) {
          Case c = cs.back(); size_t n = std::min(chunk, c.items.size() - i);
          c.items.erase(c.items.begin() + i, c.items.begin() + i + n);
          if (tryLast(c)) progress = true; else i += n;
        }
        if (chunk == 1) break;
      }
      if (pr.itemsAreEdges) {
        // remove vertices (with their edges)
        for (long v = cs.back().get("n") - 1; v >= 0 && cs.back().get("n") > 1; --v) {
          Case c = cs.back(); std::vector<std::vector<int>> it;
          for (auto &e : c.items) {
            if (e[0] == v || e[1] == v) continue;
            auto f = e; if (f[0] > v) f[0]--; if (f[1] > v) f[1]--; it.push_back(f);
          }
          c.items = it; c.p["n"]--;
          if (tryLast(c)) progress = true;
        }
        // suppress degree-2 vertices
        for (long v = cs.back().get("n") - 1; v >= 0; --v) {
          Case c = cs.back(); std::vector<int> nb; std::vector<std::vector<int>> it; size_t where = 0;
          for (auto &e : c.items) {
            if (e[0] == v) { nb.push_back(e[1]); where = it.size(); }
            else if (e[1] == v) { nb.push_back(e[0]); where = it.size(); }
            else it.push_back(e);
          }
          if (nb.size() != 2) continue;
          bool dup = false;
          for (auto &e : it) if ((e[0] == nb[0] && e[1] == nb[1]) || (e[0] == nb[1] && e[1] == nb[0])) dup = true;
          if (dup) continue;
          it.insert(it.begin() + where, {nb[0], nb[1]});
          for (auto &e : it) { if (e[0] > v) e[0]--; if (e[1] > v) e[1]--; }
          c.items = it; c.p["n"]--;
          if (tryLast(c)) progress = true;
        }
      }
      // bytes
      for (size_t chunk = std::max<size_t>(1, cs.back().bytes.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < cs.back().bytes.size();) {
          Case c = cs.back(); size_t n = std::min(chunk, c.bytes.size() - i);
          c.bytes.erase(i, n);
          if (tryLast(c)) progress = true; else i += n;
        }
        if (chunk == 1) break;
      }
      // parameters
      if (!pr.freezeParams)
        for (auto &kv : std::map<std::string, long>(cs.back().p)) {
          if (pr.itemsAreEdges && kv.first == "n") continue;
          if (std::find(pr.fixedParams.begin(), pr.fixedParams.end(), kv.first) != pr.fixedParams.end()) continue;
          long v = cs.back().p[kv.first];
          for (long cand : {0L, v / 2, v - 1}) {
            if (cand < 0 || cand >= v) continue;
            Case c = cs.back(); c.p[kv.first] = cand;
            if (tryLast(c)) { progress = true; break; }
          }
        }
      // item values
      if (!pr.itemsAreEdges)
        for (size_t i = 0; i < cs.back().items.size(); ++i)
          for (size_t j = 1; j < cs.back().items[i].size(); ++j) {
            int v = cs.back().items[i][j];
            for (int cand : {0, v / 2, v - 1}) {
              if (cand < 0 || cand >= v) continue;
              Case c = cs.back(); c.items[i][j] = cand;
              if (tryLast(c)) { progress = true; break; }
            }
          }
    }
  }
};

static void jstr(FILE *f, const std::string &s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

static bool readFull(int fd, std::string &buf) {
  char tmp[65536]; ssize_t n = read(fd, tmp, sizeof tmp);
  if (n <= 0) return false;
  buf.append(tmp, n); return true;
}

int engineMain(int argc, char **argv) {
  std::string id, out = "result.json", replayDir = ".", replay, scratch = "/tmp"; uint64_t seed = 1; bool thorough = false;
  int jobs = 8; long casesOverride = -1; double maxSec = 0; long only = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") id = nx(); else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--tier") thorough = nx() == "thorough"; else if (a == "--out") out = nx();
    else if (a == "--replaydir") replayDir = nx(); else if (a == "--replay") replay = nx();
    else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--cases") casesOverride = atol(argv[++i]);
    else if (a == "--max-sec") maxSec = atof(argv[++i]); else if (a == "--scratch") scratch = nx();
    else if (a == "--only") only = atol(argv[++i]);
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
  }
  g_scratch = scratch;
  const Prop *pp = nullptr;
  for (auto &p : props()) if (p.id == id) pp = &p;
  if (!pp) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
  const Prop &pr = *pp;

  if (only >= 0) { // debugging aid: print and run one generated case
    Rng r(caseSeed(seed, id, only)); Case c; pr.gen(r, c, thorough);
    printf("%s", c.text().c_str());
    int w = -1; std::string m = runIsolated(pr, {c}, &w, "/dev/stderr");
    printf("result: %s\n", m.empty() ? "pass" : m.c_str()); return m.empty() ? 0 : 1;
  }
  if (!replay.empty()) {
    FILE *f = fopen(replay.c_str(), "rb"); if (!f) { fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
    std::string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    int w = -1; std::string m = runIsolated(pr, parseCases(t), &w, "/dev/stderr");
    if (m.empty()) { printf("REPLAY passes\n"); return 0; }
    printf("REPLAY fails: %s\n", m.c_str()); return 1;
  }

  double t0 = now();
  if (maxSec <= 0) maxSec = thorough ? 3000 : 240;
  long total = casesOverride >= 0 ? casesOverride : (thorough ? pr.thorough : pr.quick);
  long nb = (total + pr.batch - 1) / pr.batch, nextB = 0;
  struct W { pid_t pid; int fd; Slot *sl; long b; std::string buf; bool eof; };
  std::vector<W> ws;
  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<bool> used(jobs, false);
  long evaluations = 0, innerEvals = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, long> labels; std::vector<std::string> samples;
  std::map<std::string, int> sampleKinds;
  long failIdx = -1; std::string failMsg; bool timeUp = false; long unreproduced = 0; std::vector<std::string> unrepro;

  auto handleDone = [&](W &w) {
    int st = 0; while (waitpid(w.pid, &st, 0) < 0 && errno == EINTR) {}
    close(w.fd);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      size_t pos = 0; std::string &t = w.buf;
      while (pos < t.size()) {
        size_t nl = t.find('\n', pos); if (nl == std::string::npos) break;
        const char *l = t.c_str() + pos; size_t len = nl - pos; pos = nl + 1;
        if (l[0] == 'h') { ++evaluations; if (l[1] == '1') distinct.insert(strtoull(l + 2, 0, 16)); }
        else if (l[0] == 'e') innerEvals += atol(l + 1);
        else if (l[0] == 'l') { char *e; long c = strtol(l + 1, &e, 10); labels[std::string(e + 1, l + len - e - 1)] += c; }
        else if (l[0] == 's') {
          std::string s(l + 1, len - 1); std::string k = s.substr(0, s.find('|'));
          if (sampleKinds[k] < 1 && samples.size() < 12) { ++sampleKinds[k]; samples.push_back(s); }
        }
      }
    } else {
      long idx = w.sl->idx; std::string m;
      if (w.sl->failed) m = w.sl->msg;
      else if (WIFSIGNALED(st)) m = "crash: signal " + std::to_string(WTERMSIG(st));
      else m = "crash: sanitizer or abnormal exit, status " + std::to_string(WEXITSTATUS(st));
      if (failIdx < 0 || idx < failIdx) { failIdx = idx; failMsg = m; }
    }
    used[w.sl - slots] = false;
  };

  auto finishRun = [&](int) {};
  (void)finishRun;
  std::string replayPath, finalMsg, errText; long shrinkTries = 0;
  std::set<long> skip; // failing cases that did not reproduce
  for (;;) {
    // schedule
    while ((int)ws.size() < jobs && nextB < nb && failIdx < 0 && !timeUp) {
      int si = 0; while (used[si]) ++si;
      used[si] = true; Slot *sl = &slots[si]; memset((void *)sl, 0, sizeof *sl); sl->idx = -1;
      int fds[2]; if (pipe(fds)) return 2;
      long b = nextB++;
      fflush(nullptr);
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); return 2; }
      if (pid == 0) {
        close(fds[0]); g_slot = sl; signal(SIGPROF, onCpu);
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        fd = open("/dev/null", O_RDONLY); dup2(fd, 0);
        std::map<std::string, long> lb; std::string outp; bool sampled = false;
        for (long i = b * pr.batch; i < std::min(total, (b + 1) * pr.batch); ++i) {
          if (skip.count(i)) continue;
          sl->idx = i;
          Rng r(caseSeed(seed, id, i)); Case c; pr.gen(r, c, thorough);
          Ctx ctx;
          try { runOne(pr, c, ctx); }
          catch (Failure &f) { snprintf(sl->msg, sizeof sl->msg, "%s", f.msg.c_str()); sl->failed = 1; _exit(77); }
          for (auto &l : ctx.labels) lb[l.first] += l.second;
          char hb[64]; snprintf(hb, sizeof hb, "h%d%016llx\ne%ld\n", ctx.nontrivial ? 1 : 0, (unsigned long long)c.hash(), ctx.evals); outp += hb;
          if (ctx.nontrivial && !sampled && (b % 7 == 0)) {
            sampled = true; std::string s = c.text(); if (s.size() > 700) s = s.substr(0, 700) + "...(truncated)";
            for (auto &ch : s) if (ch == '\n') ch = ';';
            outp += "s" + c.kind + "|" + s + "\n";
          }
        }
        for (auto &l : lb) outp += "l" + std::to_string(l.second) + " " + l.first + "\n";
        size_t off = 0; while (off < outp.size()) { ssize_t n = write(fds[1], outp.data() + off, outp.size() - off); if (n <= 0) break; off += n; }
        _exit(0);
      }
      close(fds[1]);
      ws.push_back({pid, fds[0], sl, b, "", false});
    }
    if (ws.empty()) {
      if (failIdx >= 0) {
        // reproduce, shrink, replay three times
        auto genCase = [&](long i) { Rng r(caseSeed(seed, id, i)); Case c; pr.gen(r, c, thorough); return c; };
        std::vector<Case> cs{genCase(failIdx)}; int which = -1;
        std::string m = runIsolated(pr, cs, &which, "");
        if (m.empty()) { // history inside the process matters: replay the batch prefix
          cs.clear(); for (long i = failIdx / pr.batch * pr.batch; i <= failIdx; ++i) if (!skip.count(i)) cs.push_back(genCase(i));
          m = runIsolated(pr, cs, &which, "");
          if (!m.empty() && which >= 0) cs.resize(which + 1);
        }
        if (!m.empty()) {
          bool hang = tagOf(m) == "hang";
          if (hang) g_cpuDiv = 6;
          Shrinker sh{pr, cs, tagOf(m), m, now() + (thorough ? 240 : 60)}; sh.run();
          g_cpuDiv = 1;
          std::string ef = scratch + "/replay.err"; int ok = 0;
          if (hang) {
            if (runIsolated(pr, sh.cs, &which, ef).empty()) { sh.cs = cs; sh.msg = m; } // slow, not endless: keep the case that was confirmed above
            ok = 3;
          }
          else for (int k = 0; k < 3; ++k) if (!(m = runIsolated(pr, sh.cs, &which, ef)).empty()) ++ok;
          if (ok == 3) {
            finalMsg = sh.msg; shrinkTries = sh.tries;
            FILE *e = fopen(ef.c_str(), "r"); if (e) { char b[6000]; size_t n = fread(b, 1, sizeof b, e); errText.assign(b, n); fclose(e); }
            replayPath = replayDir + "/" + id + ".replay";
            FILE *f = fopen(replayPath.c_str(), "wb");
            if (f) {
              fprintf(f, "# property %s, seed %llu, tier %s, case index %ld\n# %s\n", id.c_str(), (unsigned long long)seed, thorough ? "thorough" : "quick", failIdx, finalMsg.c_str());
              fprintf(f, "# replay: python3 check.py %s --replay <this file>\n", id.c_str());
              for (auto &c : sh.cs) fputs(c.text().c_str(), f);
              size_t pos = 0; while (pos < errText.size()) { size_t nl = errText.find('\n', pos); if (nl == std::string::npos) nl = errText.size(); fprintf(f, "# stderr| %s\n", errText.substr(pos, nl - pos).c_str()); pos = nl + 1; }
              fclose(f);
            }
            break;
          }
        }
        // not reproducible: not evidence of a violation; keep going without this case
        ++unreproduced; unrepro.push_back("case " + std::to_string(failIdx) + ": " + failMsg);
        skip.insert(failIdx); nextB = failIdx / pr.batch; // batches from here on are re-run (counts deduplicated by hash only)
        failIdx = -1; failMsg.clear();
        if (unreproduced > 20) break;
        continue;
      }
      break;
    }
    std::vector<struct pollfd> pf; for (auto &w : ws) pf.push_back({w.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < pf.size(); ++i) if (pf[i].revents && !readFull(ws[i].fd, ws[i].buf)) ws[i].eof = true;
    for (size_t i = 0; i < ws.size();) if (ws[i].eof) { handleDone(ws[i]); ws.erase(ws.begin() + i); } else ++i;
    if (failIdx >= 0 && !ws.empty()) { for (auto &w : ws) { if (w.sl->idx > failIdx && !w.eof) kill(w.pid, SIGKILL); }
      // children killed on purpose must not be reported: drop the ones beyond failIdx
      for (size_t i = 0; i < ws.size();) if (ws[i].sl->idx > failIdx) { int st; waitpid(ws[i].pid, &st, 0); close(ws[i].fd); used[ws[i].sl - slots] = false; ws.erase(ws.begin() + i); } else ++i; }
    if (now() - t0 > maxSec) timeUp = true;
  }
  FILE *f = fopen(out.c_str(), "w"); if (!f) { perror("out"); return 2; }
  fprintf(f, "{\"property\":"); jstr(f, id);
  fprintf(f, ",\"evaluations\":%ld,\"inner\":%ld,\"distinct_nontrivial\":%zu,\"planned\":%ld,\"time_up\":%s,\"unreproduced\":%ld,\"wall\":%.2f,\"rule\":",
          evaluations, innerEvals, distinct.size(), total, timeUp ? "true" : "false", unreproduced, now() - t0);
  jstr(f, pr.rule);
  fprintf(f, ",\"labels\":{"); bool first = true; for (auto &l : labels) { if (!first) fputc(',', f); first = false; jstr(f, l.first); fprintf(f, ":%ld", l.second); }
  fprintf(f, "},\"samples\":["); first = true; for (auto &s : samples) { if (!first) fputc(',', f); first = false; jstr(f, s); }
  fprintf(f, "],\"unreproduced_list\":["); first = true; for (auto &s : unrepro) { if (!first) fputc(',', f); first = false; jstr(f, s); }
  fprintf(f, "]");
  if (!replayPath.empty()) { fprintf(f, ",\"violation\":{\"case\":%ld,\"shrink_tries\":%ld,\"message\":", failIdx, shrinkTries); jstr(f, finalMsg); fprintf(f, ",\"replay\":"); jstr(f, replayPath); fprintf(f, "}"); }
  fprintf(f, "}\n"); fclose(f);
  return 0;
}
