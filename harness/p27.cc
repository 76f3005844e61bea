// Coinciding buffers: the call on distinct buffers with equal contents against the call on one buffer.
#include "calls.h"
static const uint8_t *canon(const Arg &a, const uint8_t *p, Bytes &tmp, size_t &n) {
  if (a.residues) { tmp = a.residues(p); n = tmp.size(); return tmp.data(); }
  n = a.cmp; if (!a.kind) return p;
  tmp.assign(p, p + n); size_t fb = a.kind == 1 ? 32 : 56;
  for (size_t i = 0; i + fb <= n; i += fb) { uint64_t w[7]; memcpy(w, &tmp[i], fb); if (a.kind == 1) { ref::fe25 f = ref::fe25::words(w, 4); memcpy(&tmp[i], f.v, fb); } else { ref::fe448 f = ref::fe448::words(w, 7); memcpy(&tmp[i], f.v, fb); } }
  return tmp.data();
}
static void run(Src &s, Ctx &c, Call k, bool bytes) {
  size_t n = k.a.size(); int group[8]; for (size_t i = 0; i < n; i++) group[i] = (int)i;
  // groups of coinciding buffers: same size and alignment, at most one written argument in each
  bool any = false;
  for (size_t i = 1; i < n; i++) for (size_t j = 0; j < i; j++) {
    if (group[i] != (int)i || k.a[i].n != k.a[j].n || k.a[i].align != k.a[j].align) continue;
    bool writes = k.a[i].role != IN; for (size_t q = 0; q < i; q++) if (group[q] == group[j] && k.a[q].role != IN && writes) goto next;
    if (s.below(3) == 0) continue;
    group[i] = group[j]; any = true; next:;
  }
  if (!any) s.discard();
  // contents: the readers of a group see the same value
  for (size_t i = 0; i < n; i++) { int src = -1; for (size_t j = 0; j < n; j++) if (group[j] == group[i] && k.a[j].role != OUT) { src = (int)j; if (k.a[j].role == IO) break; } if (src >= 0 && k.a[i].role != OUT) k.a[i].init = k.a[src].init; }
  std::string pat; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (group[i] == group[j]) { pat += (pat.empty() ? "argument " : ", ") + std::to_string(j) + " is " + std::to_string(i); break; }
  c.note("%s: %s", k.name.c_str(), pat.c_str()); c.label(k.name + ": " + pat); c.nontrivial(true);
  for (size_t i = 0; i < n; i++) if (k.a[i].role != OUT) { char t[32]; snprintf(t, sizeof t, "argument %zu", i); c.hex(t, k.a[i].init.data(), k.a[i].n); }
  alignas(64) static uint8_t A[8][1024], B[8][1024]; uint8_t *p[8], *q[8]; size_t sh = bytes ? s.below(8) : 0;
  for (size_t i = 0; i < n; i++) { p[i] = A[i] + 64 + sh; memset(A[i], 0x5a, 1024); memset(B[i], 0x5a, 1024); if (k.a[i].role != OUT) memcpy(p[i], k.a[i].init.data(), k.a[i].n); }
  for (size_t i = 0; i < n; i++) { q[i] = B[group[i]] + 64 + sh; if (k.a[i].role != OUT) memcpy(q[i], k.a[i].init.data(), k.a[i].n); }
  long long r0 = invoke(k, p, 0x11), r1 = invoke(k, q, 0x11);
  if (r0 != r1) c.fail("%s returns %lld on distinct buffers and %lld when %s", k.name.c_str(), r0, r1, pat.c_str());
  for (size_t i = 0; i < n; i++) { const Arg &a = k.a[i]; bool written = a.role != IN; for (size_t j = 0; j < n; j++) if (group[j] == group[i] && k.a[j].role != IN) written = true;
    if (a.role == IN) { if (!written && memcmp(q[i], a.init.data(), a.n)) c.fail("%s changes argument %zu when %s", k.name.c_str(), i, pat.c_str()); continue; }
    Bytes t0, t1; size_t n0, n1; const uint8_t *x = canon(a, p[i], t0, n0), *y = canon(a, q[i], t1, n1);
    if (n0 != n1 || memcmp(x, y, n0)) c.fail("%s gives another result (argument %zu) when %s\n  distinct   %s\n  coinciding %s", k.name.c_str(), i, pat.c_str(), pbt::tohex(x, n0).c_str(), pbt::tohex(y, n1).c_str()); }
  for (size_t i = 0; i < n; i++) { size_t w = k.a[i].n; for (size_t j = 0; j < 1024; j++) if ((j < 64 + sh || j >= 64 + sh + w) && (A[i][j] != 0x5a || B[group[i]][j] != 0x5a)) c.fail("%s wrote outside argument %zu", k.name.c_str(), i); }
}
static bool field_operation(const std::string &n) { for (const char *t : {" ser", " unser", " inter", " deinter"}) { size_t l = strlen(t); if (n.size() >= l && !n.compare(n.size() - l, l, t)) return false; } return true; }
SUB(agreement, 50000, 3000000, "buffers coincide") { call_agreement(s, [&](const Call &k) { run(s, c, k, true); }); }
SUB(reduced, 1500000, 80000000, "buffers coincide") { call_reduced(s, [&](const Call &k) { if (!field_operation(k.name)) s.discard(); run(s, c, k, false); }); }
SUB(full, 2000000, 120000000, "buffers coincide") { call_full(s, [&](const Call &k) { if (!field_operation(k.name)) s.discard(); run(s, c, k, false); }); }
