// Random bytes under a scripted system source: every way the library can reach it (open/openat/read/pread, getrandom, getentropy, stdio)
// is interposed at link time; the script delivers in pieces, interrupts, fails to open, fails to read.
#include "lib.h"
#include "fred.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
extern "C" void prgn_random_bytes(uint8_t *, size_t);
enum Ev { FULL, SHORT, INTR, AGAIN, FAIL, END };
struct World {            // shared with the forked call
  bool on; int nopen_script; int open_script[16]; int nread_script; struct { int ev; uint32_t n; } read_script[64]; int tail_open, tail_read;      // errno, 0 = healthy
  int opens, reads, nfd; int live[64]; int bad_close; int pos_open, pos_read; uint64_t stream; size_t delivered; size_t limit; uint64_t key; bool gave_up; int returned; int patience;
};
static World *W;
static uint8_t stream_byte(size_t i) { uint64_t s = W->key + (i / 8) * 0x9e3779b97f4a7c15ull; uint64_t v = pbt::splitmix(s); return (uint8_t)(v >> (8 * (i % 8))); }
// bytes from .. from+n-1 of the stream
static void fill_stream(uint8_t *b, size_t from, size_t n) {
  size_t i = 0; for (; i < n && (from + i) % 8; i++) b[i] = stream_byte(from + i);
  for (; i + 8 <= n; i += 8) { uint64_t st = W->key + ((from + i) / 8) * 0x9e3779b97f4a7c15ull; uint64_t v = pbt::splitmix(st); memcpy(b + i, &v, 8); }
  for (; i < n; i++) b[i] = stream_byte(from + i);
}
static void patience() { if (W->opens + W->reads > (W->patience ? W->patience : 4000)) { W->gave_up = true; _exit(0); } }      // still trying: the caller has not been handed anything
static const int FD0 = 40000;
static ssize_t deliver(void *buf, size_t n) {
  W->reads++; patience();
  int ev = FULL; uint32_t k = 0; if (W->pos_read < W->nread_script) { ev = W->read_script[W->pos_read].ev; k = W->read_script[W->pos_read].n; W->pos_read++; } else if (W->tail_read) { if (W->tail_read == -1) return 0; errno = W->tail_read; return -1; }
  switch (ev) { case INTR: errno = EINTR; return -1; case AGAIN: errno = EAGAIN; return -1; case FAIL: errno = k ? (int)k : EIO; return -1; case END: return n ? 0 : 0; case SHORT: if (n > k) n = k; break; default: break; }
  if (n > 0x7ffff000) n = 0x7ffff000; if (W->limit && n > W->limit) n = W->limit;
  fill_stream((uint8_t *)buf, W->delivered, n); W->delivered += n; return (ssize_t)n;
}
static bool source(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static int vopen() {
  W->opens++; patience(); int e = W->pos_open < W->nopen_script ? W->open_script[W->pos_open++] : W->tail_open; if (e) { errno = e; return -1; }
  if (W->nfd >= 64) { errno = EMFILE; return -1; } W->live[W->nfd] = 1; return FD0 + W->nfd++;
}
static bool ours(int fd) { return W && W->on && fd >= FD0 && fd < FD0 + 64; }
extern "C" {
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_openat(int, const char *, int, ...); ssize_t __real_read(int, void *, size_t); ssize_t __real_pread(int, void *, size_t, off_t); int __real_close(int); ssize_t __real_getrandom(void *, size_t, unsigned); int __real_getentropy(void *, size_t); FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *);
int __wrap_open(const char *p, int f, ...) { if (W && W->on && source(p)) return vopen(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { if (W && W->on && source(p)) return vopen(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(p, f, m); }
int __wrap_openat(int d, const char *p, int f, ...) { if (W && W->on && source(p)) return vopen(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_openat(d, p, f, m); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (!W || !W->on) return __real_read(fd, b, n); if (!ours(fd)) { if (fd < 0) { W->reads++; patience(); errno = EBADF; return -1; } return __real_read(fd, b, n); } if (!W->live[fd - FD0]) { W->reads++; patience(); errno = EBADF; return -1; } return deliver(b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return ours(fd) ? __wrap_read(fd, b, n) : __real_pread(fd, b, n, o); }
int __wrap_close(int fd) { if (!ours(fd)) return __real_close(fd); if (!W->live[fd - FD0]) { W->bad_close++; errno = EBADF; return -1; } W->live[fd - FD0] = 0; return 0; }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { if (!W || !W->on) return __real_getrandom(b, n, f); W->opens++; patience(); if (W->pos_open < W->nopen_script) { errno = ENOSYS; W->pos_open++; return -1; } if (W->tail_open) { errno = ENOSYS; return -1; } return deliver(b, n); }
int __wrap_getentropy(void *b, size_t n) { if (!W || !W->on) return __real_getentropy(b, n); if (n > 256) { errno = EIO; return -1; } size_t l = 0; while (l < n) { ssize_t r = __wrap_getrandom((uint8_t *)b + l, n - l, 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) return -1; l += r; } return 0; }
static ssize_t ck_read(void *ck, char *b, size_t n) { return __wrap_read((int)(intptr_t)ck, b, n); }
static int ck_close(void *ck) { return __wrap_close((int)(intptr_t)ck); }
FILE *__wrap_fopen(const char *p, const char *m) { if (!W || !W->on || !source(p)) return __real_fopen(p, m); int fd = vopen(); if (fd < 0) return nullptr; cookie_io_functions_t io{}; io.read = ck_read; io.close = ck_close; return fopencookie((void *)(intptr_t)fd, m, io); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
}
struct Target { const char *name; size_t n; void (*f)(uint8_t *, size_t); bool raw; };
#define T(name, n, body) {name, n, [](uint8_t *b, size_t len) { (void)len; body; }, true}
#define E(name, n, body) {name, n, [](uint8_t *b, size_t len) { (void)len; body; }, false}
static const Target TARGETS[] = {
    T("prgn_random_bytes", 0, prgn_random_bytes(b, len)), T("X25519.randKey", 32, X25519.randKey(b)), T("X25519_x64.randKey", 32, X25519_x64.randKey(b)), T("X448.randKey", 56, X448.randKey(b)),
    T("Ed25519.Pure.randKey", 32, Ed25519.Pure.randKey(b)), T("Ed25519.PreHash.randKey", 32, Ed25519.PreHash.randKey(b)), T("Ed25519.Context.randKey", 32, Ed25519.Context.randKey(b)), T("Ed448.PureContext.randKey", 57, Ed448.PureContext.randKey(b)), T("Ed448.PreHash.randKey", 57, Ed448.PreHash.randKey(b)),
    T("Fp25519 full-radix rand", 32, Fp25519._1w_full.arith.misc.rand((argElement_1w)b)), T("Fp448 full-radix rand", 56, Fp448._1w_full.arith.misc.rand((argElement_1w)b)),
    E("Fp25519 1-way rand", 32, Fp25519._1w_red.arith.misc.rand((argElement_1w)b)), E("Fp25519 2-way rand", 64, Fp25519._2w_red.arith.misc.rand((argElement_2w)b)), E("Fp25519 4-way rand", 128, Fp25519._4w_red.arith.misc.rand((argElement_4w)b)),
    E("Fp448 1-way rand", 56, Fp448._1w_red.arith.misc.rand((argElement_1w)b)), E("Fp448 2-way rand", 112, Fp448._2w_red.arith.misc.rand((argElement_2w)b)), E("Fp448 4-way rand", 224, Fp448._4w_red.arith.misc.rand((argElement_4w)b))};
static void reset(uint64_t key) { if (!W) W = (World *)mmap(0, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(W, 0, sizeof *W); W->key = key; }
static bool window(const uint8_t *b, size_t n, size_t from) { if (W->delivered < n) return false; for (size_t k = from; k + n <= W->delivered; k++) { size_t i = 0; while (i < n && b[i] == stream_byte(k + i)) i++; if (i == n) return true; } return false; }
static size_t size_for(Src &s, const Target &t) { if (t.n) return t.n; switch (s.below(6)) { case 0: return s.below(4); case 1: case 2: return 1 + s.below(80); case 3: return s.below(1000); case 4: { size_t p = (size_t)1 << (4 + s.below(13)); return p - 1 + s.below(3); } default: return s.below(40000); } }
static std::string show(const World &w) { std::string r = "open:"; for (int i = 0; i < w.nopen_script; i++) r += " " + std::string(strerror(w.open_script[i])); r += w.tail_open ? std::string(" then always ") + strerror(w.tail_open) : " then ok"; r += "; read:"; static const char *nm[] = {"full", "short", "EINTR", "EAGAIN", "error", "end"}; for (int i = 0; i < w.nread_script; i++) r += std::string(" ") + nm[w.read_script[i].ev] + (w.read_script[i].ev == SHORT ? " " + std::to_string(w.read_script[i].n) : ""); r += w.tail_read ? " then always failing" : w.limit ? " then at most " + std::to_string(w.limit) + " bytes a read" : " then full"; return r; }
static uint8_t *arena() { static uint8_t *a = (uint8_t *)mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return a; }
static const size_t OFF = 4096;
static void judge(Ctx &c, const Target &t, size_t n, uint8_t *b, uint8_t fill, size_t before, int call) {
  if (t.raw) {
    for (size_t i = 0; i < 64; i++) if (b[-1 - (long)i] != fill || b[n + i] != fill) c.fail("%s of %zu bytes (call %d) wrote outside the buffer", t.name, n, call);
    if (n && !window(b, n, before)) { size_t same = 0; for (size_t i = 0; i < n; i++) same += b[i] == fill; c.fail("%s of %zu bytes (call %d) returned bytes that the source did not deliver (%zu delivered; %zu bytes still hold the previous content)\n  buffer %s", t.name, n, call, W->delivered - before, same, pbt::tohex(b, n > 96 ? 96 : n).c_str()); }
  } else if (W->delivered - before < n) c.fail("%s (call %d) returned although the source delivered only %zu of %zu bytes", t.name, call, W->delivered - before, n);
}
// a healthy source in pieces, with interruptions: every call delivers
SUB(pieces, 200000, 15000000, "the source interrupts, or delivers in at least two pieces") {
  const Target &t = TARGETS[s.below(3) == 0 ? 0 : s.below(sizeof TARGETS / sizeof *TARGETS)]; size_t n = size_for(s, t); reset(s.u64()); W->nread_script = (int)s.below(24); bool intr = false;
  for (int i = 0; i < W->nread_script; i++) { bool e = s.below(3) == 0; W->read_script[i].ev = e ? INTR : SHORT; size_t big = n ? n : 1; W->read_script[i].n = 1 + (uint32_t)(s.flip() ? s.below(big) : s.below(big < 9 ? big : 9)); intr |= e; }
  if (s.below(3) == 0) W->limit = s.flip() ? 256 : n / 3 + 1 + s.below(n + 1); W->nopen_script = s.below(4) == 3 ? 1 + (int)s.below(3) : 0; for (int i = 0; i < W->nopen_script; i++) W->open_script[i] = EINTR;
  uint8_t fill = (uint8_t)s.u64(); size_t al = t.raw && !strstr(t.name, "Fp") ? s.below(33) : 0; uint8_t *b = arena() + OFF + al; int calls = 1 + (int)s.below(3); c.note("%s, %zu bytes, %d calls; %s", t.name, n, calls, show(*W).c_str()); c.label(t.name); c.nontrivial(intr || W->nopen_script || (W->nread_script && n > 1));
  for (int k = 0; k < calls; k++) { memset(b - 64, fill, n + 1024 + 128); size_t before = W->delivered; W->on = true; t.f(b, n); W->on = false; judge(c, t, n, b, fill, before, k); }
  int live = 0; for (int i = 0; i < 64; i++) live += W->live[i]; if (live > 1 || (live && calls == 1 && W->nfd > 1)) c.fail("%s: %d descriptors stay open after %d calls", t.name, live, calls); if (live && calls > 1 && live >= calls) c.fail("%s leaks a descriptor per call", t.name); c.eqi("closes of descriptors that were not open", W->bad_close, 0);
}
// a source that fails, at once or later, for good or for a while: the call ends the process, keeps trying, or delivers everything
SUB(failures, 40000, 2000000, "the source fails at least once within the call") {
  const Target &t = TARGETS[s.below(3) == 0 ? 0 : s.below(sizeof TARGETS / sizeof *TARGETS)]; size_t n = size_for(s, t); if (!n) n = 1; reset(s.u64()); static const int OE[] = {EMFILE, ENFILE, ENOENT, EACCES, ENOMEM, EINTR}, RE[] = {EIO, EBADF, EFAULT, EINVAL, EISDIR};
  unsigned how = (unsigned)s.below(6); const char *cls = "";
  if (how == 0) { W->tail_open = OE[s.below(5)]; cls = "never opens"; } else if (how == 1) { W->nopen_script = 1 + (int)s.below(4); for (int i = 0; i < W->nopen_script; i++) W->open_script[i] = OE[s.below(6)]; cls = "fails to open at first"; }
  if (how >= 2) { W->nread_script = (int)s.below(10); size_t left = n; int k = 0; for (; k < W->nread_script; k++) { unsigned e = (unsigned)s.below(4); if (e && left > 1) { uint32_t q = 1 + (uint32_t)s.below(left - 1 < 40 ? left - 1 : 40); W->read_script[k].ev = SHORT; W->read_script[k].n = q; left -= q; } else W->read_script[k].ev = INTR; }
    switch (how) { case 2: W->tail_read = RE[s.below(5)]; cls = "read fails for good"; break; case 3: W->tail_read = -1; cls = "ends for good"; break; case 4: W->read_script[W->nread_script].ev = END; W->nread_script++; cls = "ends once"; break; default: W->read_script[W->nread_script].ev = s.flip() ? FAIL : AGAIN; W->read_script[W->nread_script].n = (uint32_t)RE[s.below(5)]; W->nread_script++; cls = "read fails once"; } }
  uint8_t fill = (uint8_t)s.u64(); uint8_t *b = arena() + OFF; memset(b - 64, fill, n + 1024 + 128); c.note("%s, %zu bytes; %s", t.name, n, show(*W).c_str()); c.label(cls);
  fflush(stdout); fflush(stderr); pid_t pid = fork();
  if (!pid) { int dn = __real_open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); alarm(20); W->on = true; t.f(b, n); W->on = false; W->returned = 1; _exit(0); }
  int st; waitpid(pid, &st, 0); bool ret = W->returned; c.label(ret ? "delivered" : W->gave_up ? "still trying" : "process ended"); c.nontrivial(W->opens > 0 || W->reads > 0);
  if (!ret && WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGALRM)) c.fail("%s: the call %s", t.name, WTERMSIG(st) == SIGALRM ? "hangs without trying the source" : "crashes with a memory fault");
  if (ret) { judge(c, t, n, b, fill, 0, 0); int live = 0; for (int i = 0; i < 64; i++) live += W->live[i]; if (live > 1) c.fail("%s: %d descriptors stay open", t.name, live); c.eqi("closes of descriptors that were not open", W->bad_close, 0); }
}
// the real source: every byte position changes, results differ, no descriptor is left
SUB(real, 20000, 1000000, "at least 16 bytes requested") {
  const Target &t = TARGETS[s.below(sizeof TARGETS / sizeof *TARGETS)]; size_t n = size_for(s, t); size_t al = t.raw && !strstr(t.name, "Fp") ? s.below(33) : 0; uint8_t *b = arena() + OFF + al; c.note("%s, %zu bytes", t.name, n); c.label(t.name); c.nontrivial(n >= 16); if (W) W->on = false;
  Bytes seen(n, 0), last; int f0 = __real_open("/dev/null", O_RDONLY); __real_close(f0);
  for (int k = 0; k < 9; k++) { uint8_t fill = (uint8_t)(k * 0x1d + 7); memset(b - 64, fill, n + 1024 + 128); t.f(b, n);
    if (t.raw) { for (size_t i = 0; i < 64; i++) if (b[-1 - (long)i] != fill || b[n + i] != fill) c.fail("%s of %zu bytes wrote outside the buffer", t.name, n); Bytes now(b, b + n); if (n >= 16 && now == last) c.fail("%s gave the same %zu bytes twice", t.name, n); for (size_t i = 0; i < n; i++) if (b[i] != fill) seen[i] = 1; last = now; } }
  size_t miss = 0; for (size_t i = 0; i < n; i++) miss += !seen[i]; if (t.raw && miss) c.fail("%s of %zu bytes never wrote %zu of them in nine calls", t.name, n, miss);      // (1/256)^9 by chance
  int f1 = __real_open("/dev/null", O_RDONLY); __real_close(f1); if (f1 > f0 + 1) c.fail("%s: descriptors stay open (%d before, %d after nine calls)", t.name, f0, f1);
}
// requests past 2^31 and 2^32 bytes (a single read delivers at most 2^31-4096): the end of the buffer is filled as well
SUBX(huge, 4, 32, "request of 2^31 bytes or more", 600, 0, 2) {
  size_t n = (s.enumerate(2) == 0 ? 1ull << 32 : 1ull << 31) + s.below(1 << 22); reset(s.u64()); W->nread_script = (int)s.below(8);
  for (int i = 0; i < W->nread_script; i++) { unsigned e = (unsigned)s.below(3); W->read_script[i].ev = e == 0 ? INTR : SHORT; W->read_script[i].n = 1 + (uint32_t)(e == 1 ? s.below(5000) : s.below(0x7fffffff)); }
  W->patience = 200000; if (s.enumerate(2) == 0) { W->limit = (1u << 17) + s.below(1 << 17); n += 1 << 19; } else if (s.flip()) W->limit = (1u << (17 + s.below(14))) + s.below(1 << 17); c.note("%zu bytes; %s", n, show(*W).c_str()); c.nontrivial(); c.label(n >> 32 ? "2^32 bytes and more" : "2^31 bytes and more");
  const size_t G = 1 << 20, span = (n + G - 1) / G * G + G; uint8_t *all = (uint8_t *)mmap(0, span + 2 * G, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (all == MAP_FAILED) s.discard(); uint8_t *b = all + G; if (mprotect(b, span, PROT_READ | PROT_WRITE)) s.discard(); memset(b + n, 0xa5, 4096);
  W->on = true; prgn_random_bytes(b, n); W->on = false;
  for (size_t i = 0; i < 4096; i++) if (b[n + i] != 0xa5) c.fail("wrote outside the buffer at +%zu", i);
  if (W->delivered < n) c.fail("returned although the source delivered only %zu of %zu bytes", W->delivered, n);
  bool found = false; size_t good = 0; Bytes t(1 << 16);
  for (size_t k = 0; k + n <= W->delivered && k < 4096 && !found; k++) { size_t i = 0; while (i < n) { size_t q = n - i < t.size() ? n - i : t.size(); if (i == 0) q = q < 16 ? q : 16; fill_stream(t.data(), k + i, q); if (memcmp(t.data(), b + i, q)) break; i += q; } if (i > good) good = i; found = i >= n; }
  munmap(all, span + 2 * G); if (!found) c.fail("the %zu bytes are not what the source delivered (right up to about %zu)", n, good); int live = 0; for (int i = 0; i < 64; i++) live += W->live[i]; if (live > 1) c.fail("%d descriptors stay open", live);
}
