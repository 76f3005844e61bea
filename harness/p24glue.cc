// Linked once with every build of the library: generates one call from the choices, runs it, reports what the caller sees.
#include "calls.h"
#include "p24.h"
// residues: the non-canonical representatives of a field element are interchangeable
static void canonical(uint8_t *p, size_t n, int kind) {
  size_t fb = kind == 1 ? 32 : 56;
  for (size_t i = 0; i + fb <= n; i += fb) { if (kind == 1) { uint64_t w[4]; memcpy(w, p + i, 32); ref::fe25 f = ref::fe25::words(w, 4); memcpy(p + i, f.v, 32); } else { uint64_t w[7]; memcpy(w, p + i, 56); ref::fe448 f = ref::fe448::words(w, 7); memcpy(p + i, f.v, 56); } }
}
extern "C" __attribute__((visibility("default"))) int case_fn(pbt::Src &s, unsigned g, unsigned junk, Seen *o) {
  static std::vector<uint8_t> mem(96 * 1024 + 64); static std::vector<uint8_t> res(96 * 1024); bool any = false;
  auto run = [&](const Call &k) {
    uint8_t *p[8], *q = (uint8_t *)(((uintptr_t)mem.data() + 63) & ~(uintptr_t)63), *base = q; size_t n = k.a.size(), t = 0; for (auto &a : k.a) t += a.n + 128; if (t > 90 * 1024) return; any = true;
    snprintf(o->name, sizeof o->name, "%s", k.name.c_str()); o->n = n;
    for (size_t i = 0; i < n; i++) { const Arg &a = k.a[i]; p[i] = q; memset(q, (int)junk, a.n + 64); if (a.role != OUT && a.n) memcpy(q, a.init.data(), a.n); q += (a.n + 127) & ~(size_t)63; }
    (void)base; o->ret = invoke(k, p, (uint8_t)junk); bool refused = k.may_refuse && o->ret == 5; uint8_t *r = res.data();
    for (size_t i = 0; i < n; i++) { const Arg &a = k.a[i]; size_t len = a.role == IN ? a.n : refused ? 0 : a.cmp; memcpy(r, p[i], len); if (a.role != IN && a.kind) canonical(r, len, a.kind); o->a[i].n = len; o->a[i].role = a.role; o->a[i].p = r; r += len; }
  };
  try { switch (g) { case 0: call_agreement(s, run); break; case 1: call_signatures(s, run); break; case 2: call_hashes(s, run); break; case 3: call_curve(s, run); break; case 4: call_reduced(s, run); break; default: call_full(s, run); } }
  catch (pbt::Discard &) { return 1; }
  return any ? 0 : 1;
}
