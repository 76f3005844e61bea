// Memory discipline: every call runs twice, once on ordinary roomy buffers and once on exact buffers that end (or begin) at an
// inaccessible page - inputs in read-only memory, the stack and the vector registers full of other garbage - with equal results.
#include "calls.h"
#include <sys/mman.h>
static const size_t SLOT = 20 * 4096, NSLOT = 8;
static uint8_t *slots() { static uint8_t *b = [] { uint8_t *p = (uint8_t *)mmap(0, NSLOT * (SLOT + 4096) + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (size_t i = 0; i < NSLOT; i++) mprotect(p + 4096 + i * (SLOT + 4096), SLOT, PROT_READ | PROT_WRITE); return p + 4096; }(); return b; }
static void run(Src &s, Ctx &c, const Call &k) {
  size_t n = k.a.size(); std::vector<Bytes> res(n); c.note("call %s", k.name.c_str()); c.label(k.name); c.nontrivial(true);
  for (size_t i = 0; i < n; i++) if (k.a[i].role != OUT) { char t[32]; snprintf(t, sizeof t, "argument %zu", i); c.hex(t, k.a[i].init.data(), k.a[i].n > 512 ? 64 : k.a[i].n); }
  // 1. roomy, aligned, writable
  static std::vector<uint8_t> room(8 * (SLOT + 512)); uint8_t *q = (uint8_t *)(((uintptr_t)room.data() + 255) & ~(uintptr_t)255), *p[8];
  for (size_t i = 0; i < n; i++) { p[i] = q; memset(q, 0x3c, k.a[i].n + 256); if (k.a[i].role != OUT && k.a[i].n) memcpy(q, k.a[i].init.data(), k.a[i].n); q += (k.a[i].n + 512) & ~(size_t)255; }
  long long r0 = invoke(k, p, 0x3c); for (size_t i = 0; i < n; i++) res[i].assign(p[i], p[i] + k.a[i].n);
  // 2. exact
  uint8_t *base[8]; size_t slack[8]; bool endflush[8];
  for (size_t i = 0; i < n; i++) {
    const Arg &a = k.a[i]; slack[i] = a.align > 1 ? 32 * (s.chance(30) ? s.below(3) : 0) : (s.flip() ? s.below(40) : 0);
#ifdef ASAN
    if (a.align > 1) { if (posix_memalign((void **)&base[i], 32, a.n ? a.n : 1)) abort(); p[i] = base[i]; endflush[i] = true; slack[i] = 0; }
    else { base[i] = (uint8_t *)malloc(a.n + slack[i]); p[i] = base[i] + slack[i]; memset(base[i], 0xc3, slack[i]); endflush[i] = true; }
#else
    base[i] = slots() + i * (SLOT + 4096); endflush[i] = s.below(4) != 3; if (s.below(50) == 0 || i == 0) mprotect(base[i], SLOT, PROT_READ | PROT_WRITE);
    mprotect(base[i], SLOT, PROT_READ | PROT_WRITE);
    if (endflush[i]) { uint8_t *e = base[i] + SLOT - slack[i] - a.n; p[i] = (uint8_t *)((uintptr_t)e & ~(uintptr_t)(a.align - 1)); } else p[i] = base[i] + slack[i];
    uint8_t *lo = p[i] - 256 < base[i] ? base[i] : p[i] - 256, *hi = p[i] + a.n + 256 > base[i] + SLOT ? base[i] + SLOT : p[i] + a.n + 256; memset(lo, 0xc3, hi - lo);
#endif
    if (a.role == OUT) memset(p[i], 0xb7, a.n); else if (a.n) memcpy(p[i], a.init.data(), a.n);
#ifndef ASAN
    if (a.role == IN) mprotect(base[i], SLOT, PROT_READ);
#endif
    c.note("argument %zu: %zu bytes at alignment %zu, %s", i, a.n, (size_t)((uintptr_t)p[i] % 64), endflush[i] ? "end of the region" : "start of the region");
  }
  long long r1 = invoke(k, p, 0xb7);
  if (r0 != r1) c.fail("%s: returned %lld on roomy buffers and %lld on exact ones", k.name.c_str(), r0, r1);
  bool refused = k.may_refuse && r1 == 5;
  for (size_t i = 0; i < n; i++) { const Arg &a = k.a[i];
    if (a.role == IN) { if (a.n && memcmp(p[i], a.init.data(), a.n)) c.fail("%s changed its input (argument %zu)", k.name.c_str(), i); if (a.n && memcmp(res[i].data(), a.init.data(), a.n)) c.fail("%s changed its input (argument %zu, roomy buffer)", k.name.c_str(), i); }
    else if (refused) { for (size_t j = 0; j < a.n; j++) if (p[i][j] != 0xb7 || res[i][j] != 0x3c) c.fail("%s refused the call but wrote argument %zu", k.name.c_str(), i); }
    else if (memcmp(p[i], res[i].data(), a.cmp)) c.fail("%s: argument %zu differs between roomy and exact buffers\n  roomy %s\n  exact %s", k.name.c_str(), i, pbt::tohex(res[i].data(), a.cmp).c_str(), pbt::tohex(p[i], a.cmp).c_str());
#ifndef ASAN
    uint8_t *lo = p[i] - 256 < base[i] ? base[i] : p[i] - 256, *hi = p[i] + a.n + 256 > base[i] + SLOT ? base[i] + SLOT : p[i] + a.n + 256;
    for (uint8_t *b = lo; b < hi; b++) if ((b < p[i] || b >= p[i] + a.n) && *b != 0xc3) c.fail("%s wrote at offset %ld of argument %zu, which has %zu bytes", k.name.c_str(), (long)(b - p[i]), i, a.n);
#else
    for (size_t j = 0; j < slack[i]; j++) if (base[i][j] != 0xc3) c.fail("%s wrote before argument %zu", k.name.c_str(), i);
    free(base[i]);
#endif
  }
  // the roomy run's surroundings
  q = (uint8_t *)(((uintptr_t)room.data() + 255) & ~(uintptr_t)255);
  for (size_t i = 0; i < n; i++) { for (size_t j = k.a[i].n; j < k.a[i].n + 256; j++) if (q[j] != 0x3c) c.fail("%s wrote %zu bytes past argument %zu", k.name.c_str(), j - k.a[i].n, i); q += (k.a[i].n + 512) & ~(size_t)255; }
}
SUB(agreement, 120000, 2000000, "every call") { call_agreement(s, [&](const Call &k) { run(s, c, k); }); }
SUB(signatures, 90000, 1500000, "every call") { call_signatures(s, [&](const Call &k) { run(s, c, k); }); }
SUB(hashes, 450000, 6000000, "every call") { call_hashes(s, [&](const Call &k) { run(s, c, k); }); }
SUB(curve, 75000, 1200000, "every call") { call_curve(s, [&](const Call &k) { run(s, c, k); }); }
SUB(reduced, 600000, 12000000, "every call") { call_reduced(s, [&](const Call &k) { run(s, c, k); }); }
SUB(full, 900000, 20000000, "every call") { call_full(s, [&](const Call &k) { run(s, c, k); }); }
