// Reference model written from RFC 7748, RFC 8032, FIPS 180-4, FIPS 202, RFC 9380.
// Shares no code with the repository under test.  Simple, not constant time.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <utility>
#include <string>
#include <vector>

namespace ref {
typedef unsigned __int128 u128;
typedef std::vector<uint8_t> Bytes;
struct View { const uint8_t *p; size_t n; View(const Bytes &b) : p(b.data()), n(b.size()) {} View(const uint8_t *q, size_t k) : p(q), n(k) {} };

// ---- fixed-width little-endian integers
template <int N> struct Big { uint64_t v[N]; };
template <int N> static inline int bcmp_(const uint64_t *a, const uint64_t *b) {
  for (int i = N - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
uint64_t big_add(uint64_t *r, const uint64_t *a, const uint64_t *b, int n);       // returns carry
uint64_t big_sub(uint64_t *r, const uint64_t *a, const uint64_t *b, int n);       // returns borrow
void big_mul(uint64_t *r, const uint64_t *a, int na, const uint64_t *b, int nb);  // r has na+nb words
int big_cmp(const uint64_t *a, const uint64_t *b, int n);
void big_mod(uint64_t *r, int nr, const uint64_t *a, int na, const uint64_t *m);  // word-wise long division
void big_mod_bitwise(uint64_t *r, int nr, const uint64_t *a, int na, const uint64_t *m);  // slow, simple; the self-test compares the two

// ---- prime fields: values are always kept canonical (< p)
struct F25 {
  static const int N = 4, BYTES = 32;
  static const uint64_t P[4];
  static void fold(uint64_t *r, const uint64_t *wide, int n);   // any n <= 9 words -> canonical
  static inline void fold2(uint64_t *r, const uint64_t *t);     // exactly 8 words -> canonical
};
struct F448 {
  static const int N = 7, BYTES = 56;
  static const uint64_t P[7];
  static void fold(uint64_t *r, const uint64_t *wide, int n);   // any n <= 15 words
  static inline void fold2(uint64_t *r, const uint64_t *t);     // exactly 14 words -> canonical
};
template <int N> static inline void canon(uint64_t *r, const uint64_t *P) {   // r < 2^(64 N)
  while (bcmp_<N>(r, P) >= 0) { uint64_t bw = 0; for (int i = 0; i < N; i++) { u128 t = (u128)r[i] - P[i] - bw; r[i] = (uint64_t)t; bw = (uint64_t)(t >> 64) & 1; } }
}
inline void F25::fold2(uint64_t *r, const uint64_t *t) {        // 2^256 == 38
  u128 c = 0; uint64_t x[4];
  _Pragma("GCC unroll 4")
  for (int i = 0; i < 4; i++) { c += (u128)t[4 + i] * 38 + t[i]; x[i] = (uint64_t)c; c >>= 64; }
  while (c) { c *= 38; for (int i = 0; i < 4; i++) { c += x[i]; x[i] = (uint64_t)c; c >>= 64; } }
  c = (x[3] >> 63) * 19; x[3] &= ~0ull >> 1;                    // 2^255 == 19
  for (int i = 0; i < 4; i++) { c += x[i]; x[i] = (uint64_t)c; c >>= 64; }
  canon<4>(x, P); memcpy(r, x, 32);
}
inline void F448::fold2(uint64_t *r, const uint64_t *t) {       // 2^448 == 2^224 + 1
  uint64_t x[12] = {0}; u128 c = 0;
  _Pragma("GCC unroll 12")
  for (int i = 0; i < 12; i++) {                                // lo + hi + 2^224 hi, 11 words and a carry
    if (i < 7) c += (u128)t[i] + t[7 + i];
    if (i >= 3 && i <= 10) c += (i <= 9 ? t[7 + i - 3] << 32 : 0) | (i >= 4 ? t[7 + i - 4] >> 32 : 0);
    x[i] = (uint64_t)c; c >>= 64;
  }
  while (x[7] | x[8] | x[9] | x[10] | x[11]) {
    uint64_t h[5] = {x[7], x[8], x[9], x[10], x[11]}; for (int i = 7; i < 12; i++) x[i] = 0;
    c = 0;
    _Pragma("GCC unroll 12")
    for (int i = 0; i < 12; i++) {
      c += x[i]; if (i < 5) c += h[i];
      if (i >= 3 && i <= 8) c += (i <= 7 ? h[i - 3] << 32 : 0) | (i >= 4 ? h[i - 4] >> 32 : 0);
      x[i] = (uint64_t)c; c >>= 64;
    }
  }
  canon<7>(x, P); memcpy(r, x, 56);
}
template <class F> struct Fe {
  uint64_t v[F::N];
  static Fe zero() { Fe r; memset(r.v, 0, sizeof r.v); return r; }
  static Fe small(uint64_t x) { Fe r = zero(); r.v[0] = x; return r; }
  static Fe words(const uint64_t *w, int n) { Fe r; F::fold(r.v, w, n); return r; }
  static Fe bytes(const uint8_t *b, int n = F::BYTES) {
    uint64_t w[16] = {0}; memcpy(w, b, n); return words(w, (n + 7) / 8);
  }
  void out(uint8_t *b) const { memcpy(b, v, F::BYTES); }
  bool operator==(const Fe &o) const { return !memcmp(v, o.v, sizeof v); }
  bool operator!=(const Fe &o) const { return !(*this == o); }
  bool is0() const { return *this == zero(); }
  bool odd() const { return v[0] & 1; }
  friend Fe operator+(const Fe &a, const Fe &b) {
    Fe r; u128 c = 0;
    for (int i = 0; i < F::N; i++) { c += (u128)a.v[i] + b.v[i]; r.v[i] = (uint64_t)c; c >>= 64; }
    if (c || bcmp_<F::N>(r.v, F::P) >= 0) { uint64_t bw = 0; for (int i = 0; i < F::N; i++) { u128 t = (u128)r.v[i] - F::P[i] - bw; r.v[i] = (uint64_t)t; bw = (uint64_t)(t >> 64) & 1; } }
    return r;
  }
  friend Fe operator-(const Fe &a, const Fe &b) {
    Fe r; uint64_t bw = 0;
    for (int i = 0; i < F::N; i++) { u128 t = (u128)a.v[i] - b.v[i] - bw; r.v[i] = (uint64_t)t; bw = (uint64_t)(t >> 64) & 1; }
    if (bw) { u128 c = 0; for (int i = 0; i < F::N; i++) { c += (u128)r.v[i] + F::P[i]; r.v[i] = (uint64_t)c; c >>= 64; } }
    return r;
  }
  friend Fe operator*(const Fe &a, const Fe &b) {
    uint64_t t[2 * F::N]; for (int i = 0; i < F::N; i++) t[i] = 0;
    _Pragma("GCC unroll 8")
    for (int i = 0; i < F::N; i++) {
      uint64_t c = 0;
      _Pragma("GCC unroll 8")
      for (int j = 0; j < F::N; j++) { u128 x = (u128)a.v[i] * b.v[j] + t[i + j] + c; t[i + j] = (uint64_t)x; c = (uint64_t)(x >> 64); }
      t[i + F::N] = c;
    }
    Fe r; F::fold2(r.v, t); return r;
  }
  Fe operator-() const { return zero() - *this; }
  Fe pow(const uint64_t *e) const {     // e has N words
    Fe T[16], r = small(1); T[0] = r;
    for (int i = 1; i < 16; i++) T[i] = T[i - 1] * *this;
    bool on = false;
    for (int i = F::N * 16 - 1; i >= 0; i--) {
      if (on) for (int k = 0; k < 4; k++) r = r * r;
      unsigned w = (e[i / 16] >> (4 * (i % 16))) & 15;
      if (w) { r = on ? r * T[w] : T[w]; on = true; }
    }
    return r;
  }
  Fe inv() const { uint64_t e[F::N]; memcpy(e, F::P, sizeof e); e[0] -= 2; return pow(e); }   // low words of both primes end in ..ed / ..ff
  bool is_square() const {             // Euler; zero counts as square
    uint64_t e[F::N];
    for (int i = 0; i < F::N; i++) e[i] = (F::P[i] >> 1) | (i + 1 < F::N ? F::P[i + 1] << 63 : 0);
    Fe t = pow(e); return is0() || t == small(1);
  }
};
typedef Fe<F25> fe25;
typedef Fe<F448> fe448;
bool sqrt25(fe25 &r, const fe25 &a);     // some root, false if none
bool sqrt448(fe448 &r, const fe448 &a);

// ---- Diffie-Hellman
void x25519(uint8_t out[32], const uint8_t k[32], const uint8_t u[32]);
void x448(uint8_t out[56], const uint8_t k[56], const uint8_t u[56]);
void mont25519(uint8_t out[32], const uint8_t k[32], const uint8_t u[32]);   // the Montgomery ladder with any 255-bit scalar (448-bit below)
void mont448(uint8_t out[56], const uint8_t k[56], const uint8_t u[56]);
void x25519_base_ed(uint8_t out[32], const uint8_t k[32]);   // the same two through the Edwards curves (fast)
void x448_base_ed(uint8_t out[56], const uint8_t k[56]);
void x25519_base(uint8_t out[32], const uint8_t k[32]);
void x448_base(uint8_t out[56], const uint8_t k[56]);

// ---- hashes
Bytes sha2_64(int bits /*384 or 512*/, const uint8_t *m, size_t n, unsigned ub = 0, unsigned nbits = 0);
static inline Bytes sha512(const Bytes &m) { return sha2_64(512, m.data(), m.size()); }
Bytes sha512_cat(const Bytes &prefix, View m);         // SHA-512(prefix || m) without copying m
Bytes keccak_cat(unsigned rate_bytes, uint8_t suffix, const Bytes &prefix, View m, size_t outlen);
struct Sponge { unsigned rate, pos = 0; uint64_t A[25] = {0}; Sponge(unsigned r) : rate(r) {} void absorb(const uint8_t *m, size_t n); void pad(uint8_t suffix); void squeeze(uint8_t *o, size_t n); };
Bytes keccak(unsigned rate_bytes, uint8_t suffix, const uint8_t *m, size_t n, size_t outlen);
static inline Bytes shake256(const Bytes &m, size_t o) { return keccak(136, 0x1f, m.data(), m.size(), o); }
static inline Bytes shake128(const Bytes &m, size_t o) { return keccak(168, 0x1f, m.data(), m.size(), o); }

// ---- edwards25519 (a=-1) and edwards448 (a=1), affine-free projective arithmetic
struct pt25 { fe25 X, Y, Z; };
struct pt448 { fe448 X, Y, Z; };
fe25 d25(); fe448 d448();
pt25 pt25_id(); pt448 pt448_id();
pt25 pt25_base(); pt448 pt448_base();
pt25 add(const pt25 &, const pt25 &); pt448 add(const pt448 &, const pt448 &);
pt25 neg(const pt25 &); pt448 neg(const pt448 &);
bool same(const pt25 &, const pt25 &); bool same(const pt448 &, const pt448 &);
pt25 mul(const pt25 &, const uint64_t *k, int words); pt448 mul(const pt448 &, const uint64_t *k, int words);
pt25 mulbase25(const uint64_t *k, int words); pt448 mulbase448(const uint64_t *k, int words);
bool on_curve25(const fe25 &x, const fe25 &y); bool on_curve448(const fe448 &x, const fe448 &y);
void enc(uint8_t o[32], const pt25 &); void enc(uint8_t o[57], const pt448 &);
bool dec(pt25 &, const uint8_t b[32]); bool dec(pt448 &, const uint8_t b[57]);
void affine(const pt25 &, fe25 &x, fe25 &y); void affine(const pt448 &, fe448 &x, fe448 &y);
// points of small order: all 8 / all 4
std::vector<pt25> torsion25(); std::vector<pt448> torsion448();

extern const uint64_t L25[4];    // group orders
extern const uint64_t L448[7];

// ---- EdDSA.  variant: 0 pure, 1 context, 2 prehash  (Ed448: 1 = pure-with-context, 2 = prehash)
enum { SIG_OK = 1, VER_OK = 2, VER_BAD = 3, VER_KEY = 4, ERR_CTX = 5 };
void ed25519_pub(uint8_t pk[32], const uint8_t sk[32]);
void ed25519_sign(uint8_t sig[64], int variant, View m, const Bytes &ctx, const uint8_t pk[32], const uint8_t sk[32]);
struct Verdict { int code; bool key_ok, s_ok, r_eq; };
Verdict ed25519_verify(int variant, View m, const Bytes &ctx, const uint8_t pk[32], const uint8_t sig[64]);
void ed448_pub(uint8_t pk[57], const uint8_t sk[57]);
void ed448_sign(uint8_t sig[114], int variant, View m, const Bytes &ctx, const uint8_t pk[57], const uint8_t sk[57]);
Verdict ed448_verify(int variant, View m, const Bytes &ctx, const uint8_t pk[57], const uint8_t sig[114]);
// building blocks for adversarial signatures
void ed25519_hram(uint64_t h[4], int variant, View m, const Bytes &ctx, const uint8_t R[32], const uint8_t pk[32]);
void ed448_hram(uint64_t h[7], int variant, View m, const Bytes &ctx, const uint8_t R[57], const uint8_t pk[57]);
void sc25_muladd(uint64_t r[4], const uint64_t a[4], const uint64_t b[4], const uint64_t c[4]);   // a*b+c mod L
void sc448_muladd(uint64_t r[7], const uint64_t a[7], const uint64_t b[7], const uint64_t c[7]);
void sc25_reduce(uint64_t r[4], const uint8_t *b, size_t n);
void sc448_reduce(uint64_t r[7], const uint8_t *b, size_t n);

// ---- hash to curve (the library's definition: scalars reduced mod the group order)
void elligator25(fe25 &x, fe25 &y, const fe25 &u);       // point on edwards25519
void h2c25(fe25 &x, fe25 &y, const uint8_t *m, size_t n);
void h2f25(uint64_t u[4], uint8_t prefix, const uint8_t *m, size_t n);
}  // namespace ref
