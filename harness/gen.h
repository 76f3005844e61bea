// Directed generators shared by the checks.
#pragma once
#include "pbt.h"
#include "ref.h"
namespace gen {
using pbt::Src;
typedef ref::Bytes Bytes;

static inline uint64_t word(Src &s) {
  switch (s.below(10)) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 1ull << s.below(64);
    case 3: return (1ull << s.below(64)) - 1;
    case 4: return ~((1ull << s.below(64)) - 1);
    case 5: return s.below(64);
    case 6: return ~s.below(64);
    case 7: { uint64_t h = s.below(1ull << 32); return (h << 32) | (s.flip() ? 0xffffffffu : 0); }
    default: return s.u64();
  }
}
// integer of n bytes with structure (runs, special words, sparse, random)
static inline void structured(Src &s, uint8_t *b, size_t n) {
  switch (s.below(8)) {
    case 0: memset(b, 0, n); { uint64_t v = s.below(70000); memcpy(b, &v, n < 8 ? n : 8); } break;
    case 1: memset(b, 0xff, n); { uint64_t v = ~s.below(70000); memcpy(b, &v, n < 8 ? n : 8); } break;
    case 2: {                                    // single run of ones  2^a - 2^b
      memset(b, 0, n); unsigned a = (unsigned)s.below(n * 8), l = (unsigned)s.below(n * 8) + 1;
      for (unsigned i = a; i < a + l && i < n * 8; i++) b[i / 8] |= 1 << (i % 8);
      break; }
    case 3: {                                    // few bits set / cleared
      bool inv = s.flip(); memset(b, inv ? 0xff : 0, n); int k = 1 + (int)s.below(4);
      while (k--) { unsigned i = (unsigned)s.below(n * 8); b[i / 8] ^= 1 << (i % 8); }
      break; }
    case 4: { uint8_t p = (uint8_t)s.below(256); memset(b, p, n); break; }
    case 5: s.bytes(b, n); break;
    default:
      for (size_t i = 0; i < n; i += 8) { uint64_t w = word(s); memcpy(b + i, &w, n - i < 8 ? n - i : 8); }
  }
}
static inline void add_small(uint64_t *w, int n, int64_t d) {
  uint64_t t[16] = {0}; uint64_t m = d < 0 ? (uint64_t)(-d) : (uint64_t)d; t[0] = m;
  if (d < 0) ref::big_sub(w, w, t, n); else ref::big_add(w, w, t, n);
}
static inline int64_t small_delta(Src &s) {
  static const uint64_t lim[] = {2, 20, 40, 1500, 1u << 20, 1ull << 34};
  uint64_t m = s.below(lim[s.below(6)]); return s.flip() ? -(int64_t)m : (int64_t)m;
}
// integer assembled from limbs of a reduced radix, each at an end of its range or random
static inline void limbs(Src &s, uint64_t *w, int bits, bool r448) {
  memset(w, 0, (size_t)(bits + 63) / 64 * 8); unsigned mode = (unsigned)s.below(4), at = 0;
  for (int i = 0; (int)at < bits; i++) {
    unsigned len = r448 ? 28 : (i & 1 ? 25 : 26); uint64_t m = (1ull << len) - 1, v;
    switch (mode == 0 ? s.below(2) : mode == 1 ? s.below(5) : s.below(8)) { case 0: v = m; break; case 1: v = 0; break; case 2: v = 1; break; case 3: v = m - 1; break; case 4: v = (m + 1) / 2 - s.below(2); break; default: v = s.below(m + 1); }
    for (unsigned b = 0; b < len && (int)(at + b) < bits; b++) if ((v >> b) & 1) w[(at + b) / 64] |= 1ull << ((at + b) % 64);
    at += len;
  }
}
// any 256-bit integer, biased to multiples of p = 2^255-19 and word boundaries
static inline void int256(Src &s, uint64_t w[4], std::string *cls = nullptr) {
  unsigned k = (unsigned)s.below(10);
  if (k < 3) { s.bytes((uint8_t *)w, 32); if (cls) *cls = "random"; return; }
  if (k < 6) {                                   // c*p + d for c = 0,1,2 and 2^255, 2^256 - d, p/2, ..
    switch (s.below(6)) {
      case 0: memset(w, 0, 32); break;
      case 1: memcpy(w, ref::F25::P, 32); break;
      case 2: ref::big_add(w, ref::F25::P, ref::F25::P, 4); break;
      case 3: memset(w, 0, 32); w[3] = 1ull << 63; break;
      case 4: memset(w, 0, 32); break;           // minus d -> near 2^256
      default: memcpy(w, ref::F25::P, 32); for (int i = 0; i < 4; i++) w[i] = (w[i] >> 1) | (i < 3 ? w[i + 1] << 63 : 0);
    }
    add_small(w, 4, small_delta(s)); if (cls) *cls = "near-multiple-of-p"; return;
  }
  if (k == 6) { limbs(s, w, 256, false); if (cls) *cls = "limbs"; return; }
  structured(s, (uint8_t *)w, 32); if (cls) *cls = "structured";
}
static inline void int448(Src &s, uint64_t w[7], std::string *cls = nullptr) {
  unsigned k = (unsigned)s.below(10);
  if (k < 3) { s.bytes((uint8_t *)w, 56); if (cls) *cls = "random"; return; }
  if (k < 6) {
    memset(w, 0, 56);
    switch (s.below(6)) {
      case 0: break;
      case 1: memcpy(w, ref::F448::P, 56); break;
      case 2: w[3] = 1ull << 32; break;          // 2^224
      case 3: break;                             // minus d -> near 2^448
      case 4: w[6] = 1ull << 63; break;
      default: memcpy(w, ref::F448::P, 56); w[3] -= 1ull << 32;  // 2^448 - 2^225 - 1
    }
    if (s.chance(30)) {                          // +- d*2^224
      uint64_t t[7] = {0}; uint64_t d = s.below(40); t[3] = d << 32; t[4] = d >> 32;
      if (s.flip()) ref::big_add(w, w, t, 7); else ref::big_sub(w, w, t, 7);
    }
    add_small(w, 7, small_delta(s)); if (cls) *cls = "near-multiple-of-p"; return;
  }
  if (k == 6) { limbs(s, w, 448, true); if (cls) *cls = "limbs"; return; }
  structured(s, (uint8_t *)w, 56); if (cls) *cls = "structured";
}
// message lengths around block boundaries of the hash in use
static inline size_t length(Src &s, size_t block, size_t maxlen) {
  size_t n;
  switch (s.below(6)) {
    case 0: n = s.below(16); break;
    case 1: n = s.below(2 * block + 20); break;
    case 2: { size_t k = 1 + s.below(6); n = k * block; int d = (int)s.below(41) - 20; n = (size_t)((long)n + d < 0 ? 0 : (long)n + d); break; }
    case 3: { size_t k = 1 + s.below(4); n = k * block - 17 + s.below(3); break; }   // length-field boundary
    case 4: n = s.below(1024); break;
    default: n = s.below(maxlen + 1);
  }
  return n > maxlen ? n % (maxlen + 1) : n;
}
static inline Bytes message(Src &s, size_t n) {
  Bytes b(n);
  if (!n) return b;
  switch (s.below(5)) {
    case 0: break;
    case 1: memset(b.data(), 0xff, n); break;
    case 2: { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)i; break; }
    default: if (n <= 48) s.bytes(b.data(), n); else s.bulk(b.data(), n);
  }
  return b;
}
// RFC 7748 style low-order u-coordinates of curve25519 and its twist
static inline void low_order25519(Src &s, uint8_t u[32]) {
  static const char *t[] = {
      "0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000",
      "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
      "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
      "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"};
  const char *h = t[s.below(7)];
  for (int i = 0; i < 32; i++) { char c[3] = {h[2 * i], h[2 * i + 1], 0}; u[i] = (uint8_t)strtoul(c, 0, 16); }
  if (s.flip()) u[31] |= 0x80;
}
static inline ref::fe25 field_value(Src &s, ref::fe25 *) { uint64_t w[4]; int256(s, w); return ref::fe25::words(w, 4); }
static inline ref::fe448 field_value(Src &s, ref::fe448 *) { uint64_t w[7]; int448(s, w); return ref::fe448::words(w, 7); }
// peer values such that an early ladder intermediate is congruent to a chosen value (small, or with a chosen bit pattern)
template <class FE, bool (*SQ)(FE &, const FE &)> static inline FE solved_u(Src &s, uint64_t A) {
  FE V = FE::small(s.below(s.flip() ? 40 : 3000)); if (s.flip()) V = -V;
  if (s.flip()) V = field_value(s, (FE *)nullptr);
  FE one = FE::small(1), r;
  switch (s.below(7)) {
    case 0: return V - one;                                   // u + 1
    case 1: return V + one;                                   // u - 1
    case 2: if (SQ(r, V)) return (s.flip() ? r : -r) - one; return V;        // (u+1)^2
    case 3: if (SQ(r, V)) return (s.flip() ? r : -r) + one; return V;        // (u-1)^2
    case 4: return V * FE::small(4).inv();                    // 4u
    case 5: if (SQ(r, V + one)) return r; return V;           // u^2 - 1
    default: {                                                // u^2 + A u + 1 = V
      FE h = FE::small(A) * FE::small(2).inv();
      if (SQ(r, h * h - one + V)) return r - h; return V; }
  }
}
static inline void peer25519(Src &s, uint8_t u[32], std::string *cls) {
  uint64_t w[4];
  switch (s.below(13)) {
    case 12: { memset(u, 0, 32); u[0] = 9; if (s.flip()) low_order25519(s, u); u[s.below(32)] ^= (uint8_t)(s.flip() ? 1 << s.below(8) : 1 + s.below(255)); *cls = "near-special-point"; return; }
    case 0: low_order25519(s, u); *cls = "low-order"; return;
    case 1: case 2: case 3: {
      ref::fe25 v = solved_u<ref::fe25, ref::sqrt25>(s, 486662);
      memcpy(w, v.v, 32);
      if (s.flip()) { uint64_t t[4]; if (!ref::big_add(t, w, ref::F25::P, 4) && !(t[3] >> 63)) memcpy(w, t, 32); }   // non-canonical if it fits
      memcpy(u, w, 32); if (s.flip()) u[31] |= 0x80; *cls = "solved-intermediate"; return; }
    default: int256(s, w, cls); memcpy(u, w, 32); return;
  }
}
static inline void peer448(Src &s, uint8_t u[56], std::string *cls) {
  uint64_t w[7];
  switch (s.below(13)) {
    case 12: { memset(u, 0, 56); u[0] = 5; if (s.flip()) memcpy(u, ref::F448::P, 56); u[s.below(56)] ^= (uint8_t)(s.flip() ? 1 << s.below(8) : 1 + s.below(255)); *cls = "near-special-point"; return; }
    case 0: { ref::fe448 v = s.flip() ? ref::fe448::zero() : ref::fe448::small(1); if (s.flip()) v = -v; memcpy(w, v.v, 56); if (s.flip()) { uint64_t t[7]; if (!ref::big_add(t, w, ref::F448::P, 7)) memcpy(w, t, 56); } memcpy(u, w, 56); *cls = "low-order"; return; }
    case 1: case 2: case 3: {
      ref::fe448 v = solved_u<ref::fe448, ref::sqrt448>(s, 156326);
      memcpy(w, v.v, 56);
      if (s.flip()) { uint64_t t[7]; if (!ref::big_add(t, w, ref::F448::P, 7)) memcpy(w, t, 56); }
      memcpy(u, w, 56); *cls = "solved-intermediate"; return; }
    default: int448(s, w, cls); memcpy(u, w, 56); return;
  }
}
// integer of n bytes made of 4-bit digits: runs of 0, 7, 8, 15 and random digits, possibly short
static inline void digits(Src &s, uint8_t *b, size_t n) {
  memset(b, 0, n); size_t nd = 2 * n, top = s.flip() ? nd : s.below(nd) + 1, i = 0;
  static const uint8_t D[] = {0, 0, 7, 8, 15, 1, 9};
  while (i < top) {
    size_t run = s.below(4) ? 1 + s.below(4) : 1 + s.below(40); unsigned k = (unsigned)s.below(9); 
    for (; run && i < top; run--, i++) { unsigned v = k < 7 ? D[k] : (unsigned)s.below(16); b[i / 2] |= (uint8_t)(v << (i % 2 * 4)); }
  }
}
// private key whose clamped scalar is cofactor*t, or cofactor*t modulo the group order, for a digit pattern t
static inline void digit_key(Src &s, uint8_t *k, size_t n) {
  uint64_t t[8] = {0}, l[8] = {0}; digits(s, (uint8_t *)t, n);
  if (n == 56) {
    if (s.flip()) {                                  // 4*(t + L) below 2^448: t below 2^446 - L, about 2^223.03
      memset(t + 3, 0, 40); ((uint8_t *)t)[27] = 0; ((uint8_t *)t)[27] = (uint8_t)s.below(64);
      size_t keep = 1 + s.below(28); if (s.flip()) memset((uint8_t *)t + keep, 0, 64 - keep);
      memcpy(l, ref::L448, 56); ref::big_add(t, t, l, 8);
    }
    ref::big_add(t, t, t, 8); ref::big_add(t, t, t, 8);
  } else if (n == 32) { for (int i = 0; i < 3; i++) ref::big_add(t, t, t, 8); }
  memcpy(k, t, n);
}
static inline void key(Src &s, uint8_t *k, size_t n, std::string *cls) {
  unsigned c = (unsigned)s.below(10);
  if (c < 4) { s.bytes(k, n); *cls = "key-random"; }
  else if (c < 6 && n != 57) { digit_key(s, k, n); *cls = "key-digits"; }
  else { structured(s, k, n); *cls = "key-structured"; }
}
}
