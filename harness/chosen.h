// peer values for which the shared secret is a chosen field element: u = (1/k mod order) * X, for X in the subgroup of prime order of the curve or of its twist
#pragma once
#include "gen.h"
namespace gen {
template <int N> static inline void inv_mod(uint64_t *r, const uint64_t *a, const uint64_t *m) {      // a^(m-2) mod m
  uint64_t e[N], two[N] = {2}, b[N], t[2 * N]; ref::big_sub(e, m, two, N); ref::big_mod(b, N, a, N, m); memset(r, 0, 8 * N); r[0] = 1;
  for (int i = 64 * N - 1; i >= 0; i--) { ref::big_mul(t, r, N, r, N); ref::big_mod(r, N, t, 2 * N, m); if (e[i / 64] >> (i % 64) & 1) { ref::big_mul(t, r, N, b, N); ref::big_mod(r, N, t, 2 * N, m); } }
}
template <int N, class FE, class F, void (*MONT)(uint8_t *, const uint8_t *, const uint8_t *), void (*DH)(uint8_t *, const uint8_t *, const uint8_t *)> struct Chosen {
  uint64_t order[2][N]; std::vector<std::pair<FE, int>> small;      // curve and twist; small elements whose x coordinate lies in a subgroup of prime order
  Chosen(const uint64_t *L, int mult) {      // twist order: (p+1)/2 - L * mult
    uint64_t h[N], one[N] = {1}; ref::big_add(h, F::P, one, N); for (int i = 0; i < N; i++) h[i] = h[i] >> 1 | (i + 1 < N ? h[i + 1] << 63 : 0);
    memcpy(order[0], L, 8 * N); for (int i = 0; i < mult; i++) ref::big_sub(h, h, L, N); memcpy(order[1], h, 8 * N);
    for (int d = 1; d < 80; d++) for (int g = 0; g < 2; g++) { FE x = FE::small((uint64_t)d); if (g) x = -x; int w = member(x); if (w >= 0) small.push_back({x, w}); }
  }
  int member(const FE &x) const { uint8_t b[8 * N], o[8 * N]; x.out(b); for (int w = 0; w < 2; w++) { MONT(o, (const uint8_t *)order[w], b); bool z = true; for (uint8_t c : o) z &= !c; if (z) { uint64_t m[N], one[N] = {1}; ref::big_sub(m, order[w], one, N); MONT(o, (const uint8_t *)m, b); if (!memcmp(o, b, 8 * N)) return w; } } return -1; }
  // u such that the agreement of the clamped key kc (little-endian words) with u gives x
  bool solve(const FE &x, int w, const uint64_t *kc, uint8_t *u) const { uint64_t e[N]; uint8_t b[8 * N]; inv_mod<N>(e, kc, order[w]); x.out(b); MONT(u, (const uint8_t *)e, b); return true; }
  bool pick(Src &s, FE &x, int &w) const {
    if (s.below(3)) { auto &p = small[s.below(small.size())]; x = p.first; w = p.second; return true; }
    for (int t = 0; t < 4; t++) { x = field_value(s, (FE *)nullptr); w = member(x); if (w >= 0) return true; }
    return false;
  }
};
typedef Chosen<4, ref::fe25, ref::F25, ref::mont25519, ref::x25519> Chosen25519;
typedef Chosen<7, ref::fe448, ref::F448, ref::mont448, ref::x448> Chosen448;
}
