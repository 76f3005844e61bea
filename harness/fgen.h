// Directed operands for full-radix arithmetic: solved so that a sum, difference, folded or scaled value lies at a boundary
#pragma once
#include "gen.h"
template <class FD> struct FullGen {
  typedef ref::Fe<FD> fe; static const int N = FD::N, NB = FD::N * 8;
  static void any(Src &s, uint64_t *w) { if (N == 4) gen::int256(s, w); else gen::int448(s, w); }
// b such that a + b or a - b lies near a multiple of p or of 2^(64N)
static void partner(Src &s, const uint64_t *a, uint64_t *b, bool &solved) {
  solved = s.below(3) != 0;
  if (!solved) { any(s, b); return; }
  uint64_t t[7]; memset(t, 0, sizeof t);
  switch (s.below(5)) {
    case 0: break;                                          // 2^(64N)
    case 1: memcpy(t, FD::P, NB); break;
    case 2: ref::big_add(t, FD::P, FD::P, N); break;
    case 3: t[N - 1] = 1ull << 63; break;
    default: any(s, t);
  }
  if (s.flip()) ref::big_sub(b, t, a, N); else ref::big_add(b, t, a, N);
  gen::add_small(b, N, gen::small_delta(s));
}
// wide integer whose reduction lands near a boundary
static void wide(Src &s, uint64_t *w, bool &directed) {
  directed = false;
  switch (s.below(6)) {
    case 0: s.bytes((uint8_t *)w, 2 * NB); return;
    case 1: gen::structured(s, (uint8_t *)w, 2 * NB); return;
    case 2: { uint64_t x[7], y[7]; any(s, x); any(s, y); ref::big_mul(w, x, N, y, N); return; }
    default: {                     // lo = target - fold(hi), target near k*p, 2^(64N), ..
      directed = true; uint64_t hi[7], lo[7], t[7];
      if (s.flip()) any(s, hi); else gen::structured(s, (uint8_t *)hi, NB);
      uint64_t ww[14]; memset(ww, 0, sizeof ww); memcpy(ww + N, hi, NB);
      fe f = fe::words(ww, 2 * N);
      any(s, t); if (s.flip()) { memset(t, 0, sizeof t); if (s.flip()) memcpy(t, FD::P, NB); gen::add_small(t, N, gen::small_delta(s)); }
      if (N == 7 && s.flip()) {              // the exact words added by the first folding: hi + hi*2^224 (wrapping)
        uint64_t sh[7] = {0}; for (int i = 0; i < 7; i++) { sh[i] = (i >= 3 ? hi[i - 3] << 32 : 0) | (i >= 4 ? hi[i - 4] >> 32 : 0); }
        ref::big_sub(lo, t, hi, N); ref::big_sub(lo, lo, sh, N);
      } else
      if (N == 4 && s.flip()) { uint64_t m[14], k38[7] = {38}; ref::big_mul(m, hi, N, k38, N); ref::big_sub(lo, t, m, N); } else
      ref::big_sub(lo, t, f.v, N);
      memcpy(w, lo, NB); memcpy(w + N, hi, NB); } }
}
static void near24(Src &s, uint64_t *x) {
    const uint64_t A24 = N == 4 ? 121666 : 39082; // a = floor(k*2^(64N) / a24) + d : product just around a multiple of 2^(64N)
    uint64_t q[8] = {0}; uint64_t rem = s.below(A24);
    for (int i = N - 1; i >= 0; i--) { ref::u128 t = ((ref::u128)rem << 64); q[i] = (uint64_t)(t / A24); rem = (uint64_t)(t % A24); }
    memcpy(x, q, NB); gen::add_small(x, N, gen::small_delta(s));
}
};
