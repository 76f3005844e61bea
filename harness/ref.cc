#include "ref.h"
namespace ref {
uint64_t big_add(uint64_t *r, const uint64_t *a, const uint64_t *b, int n) {
  u128 c = 0;
  for (int i = 0; i < n; i++) { c += (u128)a[i] + b[i]; r[i] = (uint64_t)c; c >>= 64; }
  return (uint64_t)c;
}
uint64_t big_sub(uint64_t *r, const uint64_t *a, const uint64_t *b, int n) {
  uint64_t bw = 0;
  for (int i = 0; i < n; i++) { u128 t = (u128)a[i] - b[i] - bw; r[i] = (uint64_t)t; bw = (uint64_t)(t >> 64) & 1; }
  return bw;
}
void big_mul(uint64_t *r, const uint64_t *a, int na, const uint64_t *b, int nb) {
  for (int i = 0; i < na + nb; i++) r[i] = 0;
  for (int i = 0; i < na; i++) {
    uint64_t c = 0;
    for (int j = 0; j < nb; j++) { u128 t = (u128)a[i] * b[j] + r[i + j] + c; r[i + j] = (uint64_t)t; c = (uint64_t)(t >> 64); }
    r[i + nb] = c;
  }
}
int big_cmp(const uint64_t *a, const uint64_t *b, int n) {
  for (int i = n - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
void big_mod(uint64_t *r, int nr, const uint64_t *a, int na, const uint64_t *m) {
  uint64_t t[21] = {0}, mm[21] = {0}, q[1], s[21];
  memcpy(mm, m, nr * 8);
  for (int i = na - 1; i >= 0; i--) {                             // t < m;  t = (2^64 t + a[i]) mod m
    for (int k = nr; k > 0; k--) t[k] = t[k - 1];
    t[0] = a[i];
    u128 top = (u128)t[nr] << 64 | t[nr - 1];
    q[0] = (uint64_t)(top / ((u128)m[nr - 1] + 1));               // estimate from below
    big_mul(s, m, nr, q, 1); big_sub(t, t, s, nr + 1);
    while (big_cmp(t, mm, nr + 1) >= 0) big_sub(t, t, mm, nr + 1);
  }
  memcpy(r, t, nr * 8);
}
void big_mod_bitwise(uint64_t *r, int nr, const uint64_t *a, int na, const uint64_t *m) {
  uint64_t t[20] = {0}, mm[20] = {0};
  memcpy(mm, m, nr * 8);
  for (int i = na * 64 - 1; i >= 0; i--) {
    uint64_t c = 0;
    for (int k = 0; k <= nr; k++) { uint64_t n = t[k] >> 63; t[k] = t[k] << 1 | c; c = n; }
    t[0] |= (a[i / 64] >> (i % 64)) & 1;
    if (big_cmp(t, mm, nr + 1) >= 0) big_sub(t, t, mm, nr + 1);
  }
  memcpy(r, t, nr * 8);
}

// ------------------------------------------------------------------ fields
const uint64_t F25::P[4] = {0xffffffffffffffed, ~0ull, ~0ull, 0x7fffffffffffffff};
const uint64_t F448::P[7] = {~0ull, ~0ull, ~0ull, 0xfffffffeffffffff, ~0ull, ~0ull, ~0ull};
void F25::fold(uint64_t *r, const uint64_t *w, int n) {
  // x = lo + 2^256 hi == lo + 38 hi
  uint64_t t[10] = {0};
  memcpy(t, w, n * 8);
  while (n > 4) {
    uint64_t u[10] = {0}; uint64_t k = 38; uint64_t hi[10] = {0};
    big_mul(hi, t + 4, n - 4, &k, 1);               // n-3 words
    memcpy(u, t, 32);
    int m = n - 3 > 4 ? n - 3 : 4;
    u[m] = big_add(u, u, hi, m);
    n = m + 1;
    while (n > 4 && u[n - 1] == 0) n--;
    memcpy(t, u, sizeof t);
  }
  while (big_cmp(t, P, 4) >= 0) big_sub(t, t, P, 4);
  memcpy(r, t, 32);
}
void F448::fold(uint64_t *r, const uint64_t *w, int n) {
  // x = lo + 2^448 hi == lo + hi + 2^224 hi
  uint64_t t[16] = {0};
  memcpy(t, w, n * 8);
  while (n > 7) {
    int nh = n - 7;
    uint64_t u[16] = {0}, h[16] = {0}, s[16] = {0};
    memcpy(u, t, 56);
    memcpy(h, t + 7, nh * 8);
    for (int i = 0; i < nh; i++) { s[i + 3] |= h[i] << 32; s[i + 4] |= h[i] >> 32; }
    big_add(u, u, h, 15); big_add(u, u, s, 15);
    n = 15;
    while (n > 7 && u[n - 1] == 0) n--;
    memcpy(t, u, sizeof t);
  }
  while (big_cmp(t, P, 7) >= 0) big_sub(t, t, P, 7);
  memcpy(r, t, 56);
}
bool sqrt25(fe25 &r, const fe25 &a) {
  // p = 5 mod 8 : r = a^((p+3)/8), maybe times sqrt(-1) = 2^((p-1)/4)
  static const uint64_t e1[4] = {0xfffffffffffffffe, ~0ull, ~0ull, 0x0fffffffffffffff};
  static const uint64_t e2[4] = {0xfffffffffffffffb, ~0ull, ~0ull, 0x1fffffffffffffff};
  r = a.pow(e1);
  if (r * r == a) return true;
  r = r * fe25::small(2).pow(e2);
  return r * r == a;
}
bool sqrt448(fe448 &r, const fe448 &a) {
  // p = 3 mod 4 : r = a^((p+1)/4) , (p+1)/4 = 2^446 - 2^222
  uint64_t e[7] = {0, 0, 0, 0xffffffffc0000000, ~0ull, ~0ull, 0x3fffffffffffffff};
  r = a.pow(e);
  return r * r == a;
}

// ------------------------------------------------------------------ DH
template <class F, int BITS> static Fe<F> ladder(const uint8_t *k, const Fe<F> &x1, uint64_t a24) {
  typedef Fe<F> fe;
  fe x2 = fe::small(1), z2 = fe::zero(), x3 = x1, z3 = fe::small(1), A24 = fe::small(a24);
  unsigned swap = 0;
  for (int t = BITS - 1; t >= 0; t--) {
    unsigned kt = (k[t / 8] >> (t % 8)) & 1;
    swap ^= kt;
    if (swap) { std::swap(x2, x3); std::swap(z2, z3); }
    swap = kt;
    fe A = x2 + z2, AA = A * A, B = x2 - z2, BB = B * B, E = AA - BB, C = x3 + z3, D = x3 - z3, DA = D * A, CB = C * B;
    fe s = DA + CB, d = DA - CB;
    x3 = s * s; z3 = x1 * (d * d); x2 = AA * BB; z2 = E * (AA + A24 * E);
  }
  if (swap) { std::swap(x2, x3); std::swap(z2, z3); }
  return x2 * z2.inv();
}
void x25519(uint8_t out[32], const uint8_t k[32], const uint8_t u[32]) {
  uint8_t e[32], w[32]; memcpy(e, k, 32); memcpy(w, u, 32);
  e[0] &= 248; e[31] &= 127; e[31] |= 64; w[31] &= 127;
  ladder<F25, 255>(e, fe25::bytes(w), 121665).out(out);
}
void x448(uint8_t out[56], const uint8_t k[56], const uint8_t u[56]) {
  uint8_t e[56]; memcpy(e, k, 56);
  e[0] &= 252; e[55] |= 128;
  ladder<F448, 448>(e, fe448::bytes(u), 39081).out(out);
}
void mont25519(uint8_t out[32], const uint8_t k[32], const uint8_t u[32]) { ladder<F25, 255>(k, fe25::bytes(u), 121665).out(out); }
void mont448(uint8_t out[56], const uint8_t k[56], const uint8_t u[56]) { ladder<F448, 448>(k, fe448::bytes(u), 39081).out(out); }
void x25519_base(uint8_t out[32], const uint8_t k[32]) { uint8_t b[32] = {9}; x25519(out, k, b); }
void x448_base(uint8_t out[56], const uint8_t k[56]) { uint8_t b[56] = {5}; x448(out, k, b); }

// ------------------------------------------------------------------ SHA-2 (64-bit)
static uint64_t K512[80]; static uint64_t IV512[8], IV384[8];
// constants are computed: fractional parts of the square / cube roots of primes
static uint64_t isqrt_frac(int p) {
  // floor(sqrt(p) * 2^64) mod 2^64 by binary search on 72-bit values with 192-bit squares
  uint64_t lo[2] = {0, 0};
  for (int b = 71; b >= 0; b--) {
    uint64_t c[2] = {lo[0], lo[1]}; c[b / 64] |= 1ull << (b % 64);
    uint64_t sq[4]; big_mul(sq, c, 2, c, 2);
    uint64_t tgt[4] = {0, 0, (uint64_t)p, 0};
    if (big_cmp(sq, tgt, 4) <= 0) { lo[0] = c[0]; lo[1] = c[1]; }
  }
  return lo[0];
}
static uint64_t icbrt_frac(int p) {
  uint64_t lo[2] = {0, 0};
  for (int b = 71; b >= 0; b--) {
    uint64_t c[2] = {lo[0], lo[1]}; c[b / 64] |= 1ull << (b % 64);
    uint64_t sq[4], cu[6]; big_mul(sq, c, 2, c, 2); big_mul(cu, sq, 4, c, 2);
    uint64_t tgt[6] = {0, 0, 0, (uint64_t)p, 0, 0};
    if (big_cmp(cu, tgt, 6) <= 0) { lo[0] = c[0]; lo[1] = c[1]; }
  }
  return lo[0];
}
struct InitK { InitK() {
  int n = 0;
  for (int p = 2; n < 80; p++) {
    bool pr = true; for (int q = 2; q * q <= p; q++) if (p % q == 0) pr = false;
    if (!pr) continue;
    K512[n] = icbrt_frac(p);
    if (n < 8) IV512[n] = isqrt_frac(p); else if (n < 16) IV384[n - 8] = isqrt_frac(p);
    n++;
  }
} };
static inline uint64_t rr(uint64_t x, int n) { return x >> n | x << (64 - n); }
static void comp(uint64_t H[8], const uint8_t *b) {
  uint64_t W[80];
  for (int i = 0; i < 16; i++) { W[i] = 0; for (int k = 0; k < 8; k++) W[i] = W[i] << 8 | b[8 * i + k]; }
  for (int i = 16; i < 80; i++) {
    uint64_t s0 = rr(W[i - 15], 1) ^ rr(W[i - 15], 8) ^ (W[i - 15] >> 7), s1 = rr(W[i - 2], 19) ^ rr(W[i - 2], 61) ^ (W[i - 2] >> 6);
    W[i] = W[i - 16] + s0 + W[i - 7] + s1;
  }
  uint64_t s[8]; memcpy(s, H, 64);
  for (int i = 0; i < 80; i += 8) {
    _Pragma("GCC unroll 8")
    for (int k = 0; k < 8; k++) {                     // the working variables stay in place, their names rotate
      uint64_t &a = s[(8 - k) & 7], &b = s[(9 - k) & 7], &c = s[(10 - k) & 7], &d = s[(11 - k) & 7], &e = s[(12 - k) & 7], &f = s[(13 - k) & 7], &g = s[(14 - k) & 7], &h = s[(15 - k) & 7];
      uint64_t t1 = h + (rr(e, 14) ^ rr(e, 18) ^ rr(e, 41)) + ((e & f) ^ (~e & g)) + K512[i + k] + W[i + k];
      uint64_t t2 = (rr(a, 28) ^ rr(a, 34) ^ rr(a, 39)) + ((a & b) ^ (a & c) ^ (b & c));
      d += t1; h = t1 + t2;
    }
  }
  for (int i = 0; i < 8; i++) H[i] += s[i];
}
Bytes sha2_64(int bits, const uint8_t *m, size_t n, unsigned ub, unsigned nbits) {
  static InitK init;
  uint64_t H[8]; memcpy(H, bits == 512 ? IV512 : IV384, 64);
  size_t full = n / 128 * 128;
  for (size_t i = 0; i < full; i += 128) comp(H, m + i);
  uint8_t t[256] = {0}; size_t r = n - full;
  if (r) memcpy(t, m + full, r);
  unsigned z = 0x80 >> nbits;                       // the terminating 1 bit
  t[r] = (uint8_t)((ub & (0xff00 >> nbits) & 0xff) | z);
  size_t len = r + 1 + 16 <= 128 ? 128 : 256;
  u128 L = (u128)n * 8 + nbits;
  for (int i = 0; i < 16; i++) t[len - 1 - i] = (uint8_t)(L >> (8 * i));
  for (size_t i = 0; i < len; i += 128) comp(H, t + i);
  Bytes o(bits / 8);
  for (size_t i = 0; i < o.size(); i++) o[i] = (uint8_t)(H[i / 8] >> (56 - 8 * (i % 8)));
  return o;
}

Bytes sha512_cat(const Bytes &pre, View m) {
  static Bytes warm = sha2_64(512, nullptr, 0);       // constants are set up
  size_t total = pre.size() + m.n, full = total / 128 * 128, i = 0; uint64_t H[8]; memcpy(H, IV512, 64);
  auto at = [&](size_t k) { return k < pre.size() ? pre[k] : m.p[k - pre.size()]; };
  for (; i < full && i < pre.size(); i += 128) { uint8_t t[128]; for (int k = 0; k < 128; k++) t[k] = at(i + k); comp(H, t); }
  for (; i < full; i += 128) comp(H, m.p + (i - pre.size()));
  uint8_t t[256] = {0}; size_t r = total - full; for (size_t k = 0; k < r; k++) t[k] = at(full + k);
  t[r] = 0x80; size_t len = r + 17 <= 128 ? 128 : 256; u128 L = (u128)total * 8;
  for (int k = 0; k < 16; k++) t[len - 1 - k] = (uint8_t)(L >> (8 * k));
  for (size_t k = 0; k < len; k += 128) comp(H, t + k);
  Bytes o(64); for (size_t k = 0; k < 64; k++) o[k] = (uint8_t)(H[k / 8] >> (56 - 8 * (k % 8)));
  return o;
}

// ------------------------------------------------------------------ Keccak
static void keccakf(uint64_t A[25]) {
  // tables of rho, pi and iota, computed from their definitions
  struct Tab { unsigned rot[25], dst[25]; uint64_t rc[24];
    Tab() {
      int x = 1, y = 0; rot[0] = dst[0] = 0;
      for (unsigned t = 0; t < 24; t++) { int ny = (2 * x + 3 * y) % 5; rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; dst[x + 5 * y] = (unsigned)(y + 5 * ny); x = y; y = ny; }
      uint8_t lfsr = 1;
      for (int r = 0; r < 24; r++) { rc[r] = 0; for (int j = 0; j < 7; j++) { if (lfsr & 1) rc[r] ^= 1ull << ((1 << j) - 1); lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr >> 7) * 0x71)); } }
    } };
  static const Tab T;
  auto rotl = [](uint64_t x, unsigned n) { return x << (n & 63) | x >> (-n & 63); };
  for (int round = 0; round < 24; round++) {
    uint64_t C[5], D[5], B[25];
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; x++) D[x] = C[x ? x - 1 : 4] ^ rotl(C[x < 4 ? x + 1 : 0], 1);
    for (int y = 0; y < 25; y += 5) for (int x = 0; x < 5; x++) B[T.dst[x + y]] = rotl(A[x + y] ^ D[x], T.rot[x + y]);
    for (int y = 0; y < 25; y += 5) {
      const uint64_t *b = B + y; uint64_t *a = A + y;
      a[0] = b[0] ^ (~b[1] & b[2]); a[1] = b[1] ^ (~b[2] & b[3]); a[2] = b[2] ^ (~b[3] & b[4]); a[3] = b[3] ^ (~b[4] & b[0]); a[4] = b[4] ^ (~b[0] & b[1]);
    }
    A[0] ^= T.rc[round];
  }
}
Bytes keccak(unsigned rate, uint8_t suffix, const uint8_t *m, size_t n, size_t outlen) { return keccak_cat(rate, suffix, Bytes(), View(m, n), outlen); }
Bytes keccak_cat(unsigned rate, uint8_t suffix, const Bytes &pre, View m, size_t outlen) {
  Sponge sp(rate); sp.absorb(pre.data(), pre.size()); sp.absorb(m.p, m.n); sp.pad(suffix);
  Bytes o(outlen); sp.squeeze(o.data(), outlen); return o;
}
void Sponge::absorb(const uint8_t *m, size_t n) {
  uint8_t *S = (uint8_t *)A;
  while (n) {
    size_t c = rate - pos < n ? rate - pos : n;
    if (c == rate) for (unsigned k = 0; k < rate / 8; k++) { uint64_t w; memcpy(&w, m + 8 * k, 8); A[k] ^= w; }
    else for (size_t k = 0; k < c; k++) S[pos + k] ^= m[k];
    m += c; n -= c; pos += (unsigned)c;
    if (pos == rate) { keccakf(A); pos = 0; }
  }
}
void Sponge::pad(uint8_t suffix) { uint8_t *S = (uint8_t *)A; S[pos] ^= suffix; S[rate - 1] ^= 0x80; keccakf(A); pos = 0; }
void Sponge::squeeze(uint8_t *o, size_t n) {
  while (n) {
    if (pos == rate) { keccakf(A); pos = 0; }
    size_t c = rate - pos < n ? rate - pos : n; memcpy(o, (uint8_t *)A + pos, c); o += c; n -= c; pos += (unsigned)c;
  }
}

// ------------------------------------------------------------------ curves
fe25 d25() { static fe25 d = -(fe25::small(121665) * fe25::small(121666).inv()); return d; }
fe448 d448() { static fe448 d = -fe448::small(39081); return d; }
pt25 pt25_id() { return {fe25::zero(), fe25::small(1), fe25::small(1)}; }
pt448 pt448_id() { return {fe448::zero(), fe448::small(1), fe448::small(1)}; }
// complete projective addition (a = -1 resp. a = 1), add-2008-bbjlp
pt25 add(const pt25 &p, const pt25 &q) {
  fe25 A = p.Z * q.Z, B = A * A, C = p.X * q.X, D = p.Y * q.Y, E = d25() * (C * D), F = B - E, G = B + E;
  return {A * F * ((p.X + p.Y) * (q.X + q.Y) - C - D), A * G * (D + C), F * G};
}
pt448 add(const pt448 &p, const pt448 &q) {
  fe448 A = p.Z * q.Z, B = A * A, C = p.X * q.X, D = p.Y * q.Y, E = d448() * (C * D), F = B - E, G = B + E;
  return {A * F * ((p.X + p.Y) * (q.X + q.Y) - C - D), A * G * (D - C), F * G};
}
pt25 neg(const pt25 &p) { return {-p.X, p.Y, p.Z}; }
pt448 neg(const pt448 &p) { return {-p.X, p.Y, p.Z}; }
bool same(const pt25 &p, const pt25 &q) { return p.X * q.Z == q.X * p.Z && p.Y * q.Z == q.Y * p.Z; }
bool same(const pt448 &p, const pt448 &q) { return p.X * q.Z == q.X * p.Z && p.Y * q.Z == q.Y * p.Z; }
template <class P> static P mul_(const P &p, const uint64_t *k, int words, P r) {
  bool on = false;
  for (int i = words * 64 - 1; i >= 0; i--) {
    if (on) r = add(r, r);
    if ((k[i / 64] >> (i % 64)) & 1) { r = on ? add(r, p) : p; on = true; }
  }
  return r;
}
pt25 mul(const pt25 &p, const uint64_t *k, int w) { return mul_(p, k, w, pt25_id()); }
pt448 mul(const pt448 &p, const uint64_t *k, int w) { return mul_(p, k, w, pt448_id()); }
bool on_curve25(const fe25 &x, const fe25 &y) { fe25 a = x * x, b = y * y; return b - a == fe25::small(1) + d25() * a * b; }
bool on_curve448(const fe448 &x, const fe448 &y) { fe448 a = x * x, b = y * y; return a + b == fe448::small(1) + d448() * a * b; }
void affine(const pt25 &p, fe25 &x, fe25 &y) { fe25 i = p.Z.inv(); x = p.X * i; y = p.Y * i; }
void affine(const pt448 &p, fe448 &x, fe448 &y) { fe448 i = p.Z.inv(); x = p.X * i; y = p.Y * i; }
void enc(uint8_t o[32], const pt25 &p) { fe25 x, y; affine(p, x, y); y.out(o); o[31] |= x.odd() << 7; }
void enc(uint8_t o[57], const pt448 &p) { fe448 x, y; affine(p, x, y); y.out(o); o[56] = (uint8_t)(x.odd() << 7); }
bool dec(pt25 &p, const uint8_t b[32]) {
  uint64_t w[4]; memcpy(w, b, 32); bool sign = w[3] >> 63; w[3] &= ~0ull >> 1;
  if (big_cmp(w, F25::P, 4) >= 0) return false;
  fe25 y = fe25::words(w, 4), yy = y * y, x;
  if (!sqrt25(x, (yy - fe25::small(1)) * (d25() * yy + fe25::small(1)).inv())) return false;
  if (x.is0() && sign) return false;
  if (x.odd() != sign) x = -x;
  p = {x, y, fe25::small(1)};
  return true;
}
bool dec(pt448 &p, const uint8_t b[57]) {
  uint64_t w[7]; memcpy(w, b, 56); bool sign = b[56] >> 7;
  if (b[56] & 0x7f) return false;
  if (big_cmp(w, F448::P, 7) >= 0) return false;
  fe448 y = fe448::words(w, 7), yy = y * y, x;
  if (!sqrt448(x, (yy - fe448::small(1)) * (d448() * yy - fe448::small(1)).inv())) return false;
  if (x.is0() && sign) return false;
  if (x.odd() != sign) x = -x;
  p = {x, y, fe448::small(1)};
  return true;
}
pt25 pt25_base() {
  static pt25 B = [] { uint8_t e[32]; (fe25::small(4) * fe25::small(5).inv()).out(e); pt25 p; dec(p, e); return p; }();
  return B;
}
pt448 pt448_base() {
  static pt448 B = [] {
    // RFC 8032 section 5.2
    static const char *sx = "4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e";
    static const char *sy = "693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14";
    auto h = [](const char *s) { uint8_t b[56]; for (int i = 0; i < 56; i++) { unsigned v; char t[3] = {s[2 * i], s[2 * i + 1], 0}; v = (unsigned)strtoul(t, 0, 16); b[55 - i] = (uint8_t)v; } return fe448::bytes(b); };
    return pt448{h(sx), h(sy), fe448::small(1)};
  }();
  return B;
}
template <class P> static P mulbase_(const std::vector<P> &tab, const uint64_t *k, int words, P r) {
  for (int i = 0; i < words * 8; i++) { unsigned d = (k[i / 8] >> (8 * (i % 8))) & 255; if (d) r = add(r, tab[255 * i + d - 1]); }
  return r;
}
template <class P> static std::vector<P> mktab(P b, int n) {
  std::vector<P> t;
  for (int i = 0; i < n; i++) { P acc = b; for (int d = 1; d <= 255; d++) { t.push_back(acc); acc = add(acc, b); } b = acc; }
  return t;
}
pt25 mulbase25(const uint64_t *k, int w) { static std::vector<pt25> t = mktab(pt25_base(), 8 * 8); return mulbase_(t, k, w, pt25_id()); }
pt448 mulbase448(const uint64_t *k, int w) { static std::vector<pt448> t = mktab(pt448_base(), 8 * 8); return mulbase_(t, k, w, pt448_id()); }
std::vector<pt25> torsion25() {
  // L * (any point of full order): take points until one has torsion order 8
  std::vector<pt25> out;
  for (uint64_t y = 2;; y++) {
    uint8_t e[32]; fe25::small(y).out(e); pt25 p; if (!dec(p, e)) continue;
    pt25 t = mul(p, L25, 4), t4 = add(add(t, t), add(t, t));
    if (same(t4, pt25_id())) continue;
    pt25 a = pt25_id();
    for (int i = 0; i < 8; i++) { fe25 x, yy; affine(a, x, yy); out.push_back({x, yy, fe25::small(1)}); a = add(a, t); }
    return out;
  }
}
std::vector<pt448> torsion448() {
  std::vector<pt448> out;
  pt448 t{fe448::small(1), fe448::zero(), fe448::small(1)}, a = pt448_id();
  for (int i = 0; i < 4; i++) { fe448 x, y; affine(a, x, y); out.push_back({x, y, fe448::small(1)}); a = add(a, t); }
  return out;
}

// ------------------------------------------------------------------ scalars
const uint64_t L25[4] = {0x5812631a5cf5d3ed, 0x14def9dea2f79cd6, 0, 0x1000000000000000};
const uint64_t L448[7] = {0x2378c292ab5844f3, 0x216cc2728dc58f55, 0xc44edb49aed63690, 0xffffffff7cca23e9, ~0ull, ~0ull, 0x3fffffffffffffff};
void sc25_reduce(uint64_t r[4], const uint8_t *b, size_t n) { uint64_t w[20] = {0}; memcpy(w, b, n); big_mod(r, 4, w, (int)(n + 7) / 8, L25); }
void sc448_reduce(uint64_t r[7], const uint8_t *b, size_t n) { uint64_t w[20] = {0}; memcpy(w, b, n); big_mod(r, 7, w, (int)(n + 7) / 8, L448); }
void sc25_muladd(uint64_t r[4], const uint64_t a[4], const uint64_t b[4], const uint64_t c[4]) {
  uint64_t t[9] = {0}, cc[9] = {0}; big_mul(t, a, 4, b, 4); memcpy(cc, c, 32); big_add(t, t, cc, 9); big_mod(r, 4, t, 9, L25);
}
void sc448_muladd(uint64_t r[7], const uint64_t a[7], const uint64_t b[7], const uint64_t c[7]) {
  uint64_t t[15] = {0}, cc[15] = {0}; big_mul(t, a, 7, b, 7); memcpy(cc, c, 56); big_add(t, t, cc, 15); big_mod(r, 7, t, 15, L448);
}

// ------------------------------------------------------------------ EdDSA
static void app(Bytes &b, const void *p, size_t n) { b.insert(b.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
static Bytes dom2(int variant, const Bytes &ctx) {
  Bytes b; if (variant == 0) return b;
  app(b, "SigEd25519 no Ed25519 collisions", 32); b.push_back(variant == 2); b.push_back((uint8_t)ctx.size()); app(b, ctx.data(), ctx.size());
  return b;
}
static Bytes dom4(int variant, const Bytes &ctx) {
  Bytes b; app(b, "SigEd448", 8); b.push_back(variant == 2); b.push_back((uint8_t)ctx.size()); app(b, ctx.data(), ctx.size());
  return b;
}
static void clamp25(uint8_t *h) { h[0] &= 0xf8; h[31] &= 0x7f; h[31] |= 0x40; }
static void clamp448(uint8_t *h) { h[0] &= 0xfc; h[55] |= 0x80; h[56] = 0; }
void ed25519_pub(uint8_t pk[32], const uint8_t sk[32]) {
  Bytes h = sha512(Bytes(sk, sk + 32)); clamp25(h.data());
  uint64_t a[4]; memcpy(a, h.data(), 32); enc(pk, mulbase25(a, 4));
}
void ed25519_hram(uint64_t h[4], int variant, View m, const Bytes &ctx, const uint8_t R[32], const uint8_t pk[32]) {
  Bytes b = dom2(variant, ctx); app(b, R, 32); app(b, pk, 32);
  Bytes M; if (variant == 2) { M = sha512_cat(Bytes(), m); m = M; }
  Bytes d = sha512_cat(b, m); sc25_reduce(h, d.data(), 64);
}
void ed25519_sign(uint8_t sig[64], int variant, View m, const Bytes &ctx, const uint8_t pk[32], const uint8_t sk[32]) {
  Bytes h = sha512(Bytes(sk, sk + 32)); clamp25(h.data());
  uint64_t a[4], r[4], k[4], s[4]; memcpy(a, h.data(), 32);
  Bytes b = dom2(variant, ctx); app(b, &h[32], 32); View whole = m;
  Bytes M; if (variant == 2) { M = sha512_cat(Bytes(), m); m = M; }
  Bytes d = sha512_cat(b, m); sc25_reduce(r, d.data(), 64);
  enc(sig, mulbase25(r, 4));
  ed25519_hram(k, variant, whole, ctx, sig, pk);
  sc25_muladd(s, k, a, r); memcpy(sig + 32, s, 32);
}
Verdict ed25519_verify(int variant, View m, const Bytes &ctx, const uint8_t pk[32], const uint8_t sig[64]) {
  Verdict v{VER_BAD, false, false, false};
  if (variant && ctx.size() > 255) { v.code = ERR_CTX; return v; }
  pt25 A; v.key_ok = dec(A, pk);
  uint64_t S[4]; memcpy(S, sig + 32, 32); v.s_ok = big_cmp(S, L25, 4) < 0;
  if (!v.key_ok) { v.code = VER_KEY; return v; }
  uint64_t h[4]; ed25519_hram(h, variant, m, ctx, sig, pk);
  pt25 Q = add(mulbase25(S, 4), mul(neg(A), h, 4));
  uint8_t e[32]; enc(e, Q); v.r_eq = !memcmp(e, sig, 32);
  v.code = v.s_ok && v.r_eq ? VER_OK : VER_BAD;
  return v;
}
void ed448_pub(uint8_t pk[57], const uint8_t sk[57]) {
  Bytes h = shake256(Bytes(sk, sk + 57), 114); clamp448(h.data());
  uint64_t a[7]; memcpy(a, h.data(), 56); enc(pk, mulbase448(a, 7));
}
void ed448_hram(uint64_t h[7], int variant, View m, const Bytes &ctx, const uint8_t R[57], const uint8_t pk[57]) {
  Bytes b = dom4(variant, ctx); app(b, R, 57); app(b, pk, 57);
  Bytes M; if (variant == 2) { M = keccak_cat(136, 0x1f, Bytes(), m, 64); m = M; }
  Bytes d = keccak_cat(136, 0x1f, b, m, 114); sc448_reduce(h, d.data(), 114);
}
void ed448_sign(uint8_t sig[114], int variant, View m, const Bytes &ctx, const uint8_t pk[57], const uint8_t sk[57]) {
  Bytes h = shake256(Bytes(sk, sk + 57), 114); clamp448(h.data());
  uint64_t a[7], r[7], k[7], s[7]; memcpy(a, h.data(), 56);
  Bytes b = dom4(variant, ctx); app(b, &h[57], 57); View whole = m;
  Bytes M; if (variant == 2) { M = keccak_cat(136, 0x1f, Bytes(), m, 64); m = M; }
  Bytes d = keccak_cat(136, 0x1f, b, m, 114); sc448_reduce(r, d.data(), 114);
  enc(sig, mulbase448(r, 7));
  ed448_hram(k, variant, whole, ctx, sig, pk);
  sc448_muladd(s, k, a, r); memcpy(sig + 57, s, 56); sig[113] = 0;
}
Verdict ed448_verify(int variant, View m, const Bytes &ctx, const uint8_t pk[57], const uint8_t sig[114]) {
  Verdict v{VER_BAD, false, false, false};
  if (ctx.size() > 255) { v.code = ERR_CTX; return v; }
  pt448 A; v.key_ok = dec(A, pk);
  uint64_t S[8] = {0}, L8[8] = {0}; memcpy(S, sig + 57, 57); memcpy(L8, L448, 56); v.s_ok = big_cmp(S, L8, 8) < 0;
  if (!v.key_ok) { v.code = VER_KEY; return v; }
  uint64_t h[7]; ed448_hram(h, variant, m, ctx, sig, pk);
  pt448 Q = add(mulbase448(S, 8), mul(neg(A), h, 7));
  uint8_t e[57]; enc(e, Q); v.r_eq = !memcmp(e, sig, 57);
  v.code = v.s_ok && v.r_eq ? VER_OK : VER_BAD;
  return v;
}

// u = (1 + y) / (1 - y) on the curve birational to curve25519;  u = y^2 / x^2 through the 4-isogeny of edwards448 (RFC 7748 section 4)
void x25519_base_ed(uint8_t out[32], const uint8_t k[32]) {
  uint64_t e[4]; memcpy(e, k, 32); clamp25((uint8_t *)e); pt25 p = mulbase25(e, 4);
  ((p.Z + p.Y) * (p.Z - p.Y).inv()).out(out);
}
void x448_base_ed(uint8_t out[56], const uint8_t k[56]) {
  uint64_t e[7]; memcpy(e, k, 56); e[0] &= ~3ull; e[6] |= 1ull << 63; pt448 p = mulbase448(e, 7);
  fe448 q = p.Y * p.X.inv(); (q * q).out(out);
}

// ------------------------------------------------------------------ hash to curve
void h2f25(uint64_t u[4], uint8_t prefix, const uint8_t *m, size_t n) {
  Bytes b; b.push_back(prefix);
  Bytes d = sha512_cat(b, View(m, n)); sc25_reduce(u, d.data(), 64);
}
void elligator25(fe25 &xo, fe25 &yo, const fe25 &u) {
  // RFC 9380 section 6.7.1 (curve25519: J = 486662, K = 1, Z = 2) in plain (not straight-line) form
  fe25 J = fe25::small(486662), one = fe25::small(1);
  fe25 den = one + fe25::small(2) * u * u;           // never 0: -1/2 is not a square
  fe25 x1 = -J * den.inv();
  fe25 g1 = x1 * (x1 * x1 + J * x1 + one), x, y;
  if (g1.is_square()) { x = x1; sqrt25(y, g1); if (!y.odd()) y = -y; }       // sgn0(y) == 1
  else { x = -x1 - J; fe25 g2 = x * (x * x + J * x + one); sqrt25(y, g2); if (y.odd()) y = -y; }  // sgn0(y) == 0
  // edwards25519 : xE = sqrt(-486664) * x / y , yE = (x-1)/(x+1); sqrt has sgn0 == 0; undefined -> (0,1)
  static fe25 c1 = [] { fe25 r; sqrt25(r, -fe25::small(486664)); if (r.odd()) r = -r; return r; }();
  fe25 dn = (x + one) * y;
  if (dn.is0()) { xo = fe25::zero(); yo = one; return; }
  xo = c1 * x * y.inv();
  yo = (x - one) * (x + one).inv();
}
void h2c25(fe25 &x, fe25 &y, const uint8_t *m, size_t n) {
  pt25 acc = pt25_id();
  for (int i = 0; i < 2; i++) {
    uint64_t u[4]; h2f25(u, (uint8_t)i, m, n);
    fe25 a, b; elligator25(a, b, fe25::words(u, 4));
    acc = add(acc, pt25{a, b, fe25::small(1)});
  }
  uint64_t eight = 8;
  affine(mul(acc, &eight, 1), x, y);
}
}  // namespace ref
