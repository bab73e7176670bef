#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "memtrack.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
// Open-addressing tables so that the ledger itself does not call malloc through the wrappers.
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); int __real_rand(void); FILE *__real_tmpfile(void); time_t __real_time(time_t *);
}
namespace {
struct Ent { void *p; size_t n; long seq; };
struct Table {
  Ent *t = nullptr; size_t cap = 0, used = 0, live = 0;
  static Ent *tomb() { static Ent e; return &e; }
  size_t h(void *p) { uint64_t x = (uint64_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 29; return x & (cap - 1); }
  void grow() {
    Ent *o = t; size_t oc = cap; cap = cap ? cap * 2 : 1024;
    if (live * 4 < oc) cap = oc ? oc : 1024;
    t = (Ent *)__real_calloc(cap, sizeof(Ent)); used = live;
    for (size_t i = 0; i < oc; ++i) if (o[i].p && o[i].p != (void *)1) { size_t k = h(o[i].p); while (t[k].p) k = (k + 1) & (cap - 1); t[k] = o[i]; }
    __real_free(o);
  }
  void add(void *p, size_t n, long seq) {
    if ((used + 1) * 2 > cap) grow();
    size_t k = h(p); while (t[k].p && t[k].p != (void *)1) k = (k + 1) & (cap - 1);
    if (!t[k].p) ++used;
    t[k] = {p, n, seq}; ++live;
  }
  bool del(void *p) {
    if (!cap) return false;
    size_t k = h(p); while (t[k].p) { if (t[k].p == p) { t[k].p = (void *)1; --live; return true; } k = (k + 1) & (cap - 1); }
    return false;
  }
  void clear() { if (cap) memset(t, 0, cap * sizeof(Ent)); used = live = 0; }
};
Table mem, files; bool on = false, ignore = false, paused = false; long seq = 0, failAt = 0; bool failed = false; int fillByte = 0xA7;
IoPlan io; bool ioOn = false, ioFailedFlag = false; long ioOpens = 0, ioCloses = 0, ioMoved = 0; std::function<int()> randSource; size_t capBytes = 0; const size_t DEFCAP = (size_t)600 << 20;
long bytesMoved = 0;
bool fault(size_t n) {
  if (!on || paused) return false;
  ++seq;
  if (failAt && seq == failAt) { failed = true; errno = ENOMEM; return true; }
  if (n > (capBytes ? capBytes : DEFCAP)) { errno = ENOMEM; return true; }
  return false;
}
// a stream over a file descriptor whose transfers fail for good after the planned number of bytes
ssize_t ckMove(void *c, char *b, size_t n, bool rd) {
  int fd = (int)(intptr_t)c; long left = io.bytes < 0 ? (long)n : io.bytes - ioMoved; if (left < 0) left = 0;
  if (n && left == 0) { ioFailedFlag = true; errno = rd ? EIO : ENOSPC; return rd ? -1 : 0; }
  if ((long)n > left) { n = left; if (!rd) { ioFailedFlag = true; errno = ENOSPC; } }
  ssize_t r = rd ? read(fd, b, n) : write(fd, b, n); if (r > 0) ioMoved += r; if (r < 0 && !rd) r = 0; return r;
}
ssize_t ckRead(void *c, char *b, size_t n) { return ckMove(c, b, n, true); }
ssize_t ckWrite(void *c, const char *b, size_t n) { return ckMove(c, (char *)b, n, false); }
int ckSeek(void *c, off64_t *o, int w) { if (!io.seekable) { errno = ESPIPE; return -1; } off_t r = lseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ckClose(void *c) { return close((int)(intptr_t)c); }
}
void mt_begin() { mem.clear(); files.clear(); on = true; ignore = paused = false; seq = 0; failAt = 0; failed = false; ioOn = false; randSource = nullptr; fillByte = 0xA7; capBytes = 0; }
std::string mt_end() {
  on = false; if (ignore) return "";
  char b[256];
  if (mem.live) {
    size_t bytes = 0; long firstSeq = -1; size_t fb = 0;
    for (size_t i = 0; i < mem.cap; ++i) if (mem.t[i].p && mem.t[i].p != (void *)1) { bytes += mem.t[i].n; if (firstSeq < 0 || mem.t[i].seq < firstSeq) { firstSeq = mem.t[i].seq; fb = mem.t[i].n; } }
    snprintf(b, sizeof b, "%zu allocation(s), %zu bytes not released (earliest: allocation no. %ld, %zu bytes)", mem.live, bytes, firstSeq, fb); return b;
  }
  if (files.live) { snprintf(b, sizeof b, "%zu stream(s) left open", files.live); return b; }
  return "";
}
void mt_ignoreLeaks(bool v) { ignore = v; }
long mt_allocCount() { return seq; }
void mt_failAt(long k) { seq = 0; failAt = k; failed = false; }
bool mt_failed() { return failed; }
void mt_fill(int b) { fillByte = b; }
long mt_live() { return (long)mem.live; }
void mt_io(const IoPlan *p) { ioOn = p != nullptr; if (p) io = *p; ioFailedFlag = false; ioOpens = ioCloses = ioMoved = 0; }
bool mt_ioFailed() { return ioFailedFlag; }
long mt_ioMoved() { return ioMoved; }
long mt_openFiles() { return (long)files.live; }
void mt_rand(std::function<int()> f) { randSource = f; }
static long timeNow = -1;
void mt_time(long t) { timeNow = t; }
void mt_pause(bool v) { paused = v; }
long mt_bytes() { return bytesMoved; }
void mt_cap(size_t b) { capBytes = b; }
extern "C" {
void *__wrap_malloc(size_t n) { if (fault(n)) return nullptr; void *p = __real_malloc(n); if (on && p) { if (fillByte >= 0) memset(p, fillByte, n); mem.add(p, n, seq); } return p; }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) return nullptr; if (fault(a * b)) return nullptr; void *p = __real_calloc(a, b); bytesMoved += (long)(a * b); if (on && p) mem.add(p, a * b, seq); return p; }
void *__wrap_realloc(void *o, size_t n) {
  if (fault(n)) return nullptr;
  void *p = __real_realloc(o, n); if (p != o) bytesMoved += (long)n; if (p) { if (o) mem.del(o); if (on) mem.add(p, n, seq); } return p;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
void __wrap_free(void *p) { if (p) mem.del(p); __real_free(p); }
FILE *__wrap_fopen(const char *a, const char *m) {
  FILE *f = nullptr;
  if (on && ioOn && !paused) {
    if (++ioOpens == io.open) { ioFailedFlag = true; errno = EACCES; return nullptr; }
    bool w = m[0] == 'w'; int fd = open(a, w ? O_WRONLY | O_CREAT | O_TRUNC : O_RDONLY, 0600); if (fd < 0) return nullptr;
    cookie_io_functions_t fn = {ckRead, ckWrite, ckSeek, ckClose}; f = fopencookie((void *)(intptr_t)fd, w ? "w" : "r", fn);
    static char pool[16][512]; if (f && io.buffer >= 0) setvbuf(f, io.buffer ? pool[ioOpens & 15] : nullptr, io.buffer ? _IOFBF : _IONBF, io.buffer > 512 ? 512 : io.buffer);
  } else f = __real_fopen(a, m);
  if (f && on) files.add(f, 0, 0); return f;
}
FILE *__wrap_tmpfile(void) {
  if (on && ioOn && !paused && ++ioOpens == io.open) { ioFailedFlag = true; errno = EACCES; return nullptr; }
  FILE *f = __real_tmpfile(); if (f && on) files.add(f, 0, 0); return f;
}
int __wrap_fclose(FILE *f) { files.del(f); bool bad = on && ioOn && !paused && ++ioCloses == io.close; int r = __real_fclose(f); if (bad) { ioFailedFlag = true; errno = EIO; r = EOF; } return r; }
time_t __wrap_time(time_t *p) { if (timeNow < 0) return __real_time(p); if (p) *p = timeNow; return timeNow; }
int __wrap_rand(void) { return on && randSource ? randSource() : __real_rand(); }
}
