// prints reference-model results for random inputs; tools/selftest.py recomputes every line
#include "ref.h"
#include <stdio.h>
using namespace ref;
static uint64_t st = 12345;
static uint64_t rnd() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1Dull; }
static Bytes rb(size_t n) { Bytes b(n); int m = rnd() % 6; for (auto &x : b) x = m == 0 ? 0xff : m == 1 ? 0 : (uint8_t)(rnd() >> 40); if (n && m < 2) b[rnd() % n] = (uint8_t)rnd(); return b; }
static void o(const Bytes &b) { printf(" "); if (b.empty()) printf("-"); for (auto x : b) printf("%02x", x); }
template <class T> static Bytes B(const T *p, size_t n) { return Bytes((const uint8_t *)p, (const uint8_t *)p + n); }
// words that provoke carries: 0, ~0, single bits, near-prime patterns
static void rw(uint64_t *w, int n) {
  int m = rnd() % 5;
  for (int i = 0; i < n; i++) switch (m == 4 ? rnd() % 4 : m) { case 0: w[i] = rnd(); break; case 1: w[i] = ~0ull - (rnd() % 3 ? 0 : rnd() % 64); break; case 2: w[i] = rnd() % 3 ? 0 : rnd() % 64; break; default: w[i] = rnd() & 1 ? 0xfffffffeffffffffull + rnd() % 3 : 1ull << rnd() % 64; }
}
// the fast paths of the reference against its simple ones
template <class F> static void fast(const char *name) {
  for (int it = 0; it < 60000; it++) {
    uint64_t x[F::N], y[F::N], w[2 * F::N], e[F::N], g[F::N]; rw(x, F::N); rw(y, F::N);
    Fe<F> a = Fe<F>::words(x, F::N), b = Fe<F>::words(y, F::N), z;
    big_mod_bitwise(e, F::N, x, F::N, F::P); if (memcmp(e, a.v, sizeof e)) { printf("MISMATCH fold %s\n", name); exit(1); }
    big_mul(w, a.v, F::N, b.v, F::N); F::fold(g, w, 2 * F::N); z = a * b; if (memcmp(g, z.v, sizeof g)) { printf("MISMATCH mul %s\n", name); exit(1); }
    if (it % 8 == 0) { big_mod_bitwise(e, F::N, w, 2 * F::N, F::P); if (memcmp(e, g, sizeof e)) { printf("MISMATCH mod %s\n", name); exit(1); } }
    rw(w, 2 * F::N); F::fold(g, w, 2 * F::N); F::fold2(e, w); if (memcmp(g, e, sizeof g)) { printf("MISMATCH fold2 %s\n", name); exit(1); }
    uint64_t s[F::N + 1]; s[F::N] = big_add(s, a.v, b.v, F::N); F::fold(g, s, F::N + 1); z = a + b; if (memcmp(g, z.v, sizeof g)) { printf("MISMATCH add %s\n", name); exit(1); }
    z = (a - b) + b; if (z != a || a - a != Fe<F>::zero()) { printf("MISMATCH sub %s\n", name); exit(1); }
  }
}
static void fastmod(const uint64_t *m, int n, int k) {
  for (int it = 0; it < 20000; it++) {
    uint64_t w[16], e[8], g[8]; rw(w, k);
    if (it & 1) { uint64_t q[16] = {0}, r[8], t[24] = {0}; rw(q, k - n); rw(r, n); big_mod_bitwise(r, n, r, n, m); if (it & 2) { memset(r, 0, sizeof r); r[0] = rnd() % 3; } big_mul(t, q, k - n, m, n); uint64_t rr[16] = {0}; memcpy(rr, r, n * 8); big_add(w, t, rr, k); }
    big_mod(e, n, w, k, m); big_mod_bitwise(g, n, w, k, m); if (memcmp(e, g, n * 8)) { printf("MISMATCH big_mod\n"); exit(1); }
  }
}
int main() {
  fast<F25>("2^255-19"); fast<F448>("2^448-2^224-1");
  fastmod(L25, 4, 8); fastmod(L25, 4, 9); fastmod(L448, 7, 15); fastmod(L448, 7, 14); fastmod(F25::P, 4, 8); fastmod(F448::P, 7, 14);
  for (int it = 0; it < 4000; it++) { Bytes a = rb(rnd() % 300), b = rb(rnd() % 500), ab = a; ab.insert(ab.end(), b.begin(), b.end()); if (sha512_cat(a, b) != sha512(ab) || keccak_cat(136, 0x1f, a, b, 200) != shake256(ab, 200)) { printf("MISMATCH cat\n"); exit(1); } }
  for (int it = 0; it < 100; it++) { uint8_t k[56], a[56], b[56]; rw((uint64_t *)k, 7); x25519_base(a, k); x25519_base_ed(b, k); int bad = memcmp(a, b, 32); x448_base(a, k); x448_base_ed(b, k);
    if (bad || memcmp(a, b, 56)) { printf("MISMATCH base_ed\n"); exit(1); } }
  { pt25 B = pt25_base(); pt448 C = pt448_base(); for (int it = 0; it < 200; it++) { uint64_t k[8]; rw(k, 8); int n = 1 + rnd() % 8;
      if (!same(mul(B, k, n), mulbase25(k, n)) || !same(mul(C, k, n), mulbase448(k, n))) { printf("MISMATCH mulbase\n"); exit(1); } } }
  for (int i = 0; i < 15; i++) {
    { Bytes k = rb(32), u = rb(32), r(32); x25519(r.data(), k.data(), u.data()); printf("x25519"); o(k); o(u); o(r); puts(""); }
    { Bytes k = rb(56), u = rb(56), r(56); x448(r.data(), k.data(), u.data()); printf("x448"); o(k); o(u); o(r); puts(""); }
    { Bytes k = rb(32), r(32); x25519_base(r.data(), k.data()); printf("x25519base"); o(k); o(r); puts(""); }
    { Bytes k = rb(56), r(56); x448_base(r.data(), k.data()); printf("x448base"); o(k); o(r); puts(""); }
    { Bytes m = rb(rnd() % 400); printf("sha512"); o(m); o(sha2_64(512, m.data(), m.size())); puts(""); printf("sha384"); o(m); o(sha2_64(384, m.data(), m.size())); puts("");
      size_t n = rnd() % 600 + 1; printf("shake128"); o(m); o(shake128(m, n)); puts(""); printf("shake256"); o(m); o(shake256(m, n)); puts("");
      printf("sha3_256"); o(m); o(keccak(136, 6, m.data(), m.size(), 32)); puts(""); printf("sha3_512"); o(m); o(keccak(72, 6, m.data(), m.size(), 64)); puts(""); }
    { Bytes sk = rb(32), pk(32), m = rb(rnd() % 200), c = rb(rnd() % 256), sg(64); int v = rnd() % 3; ed25519_pub(pk.data(), sk.data()); ed25519_sign(sg.data(), v, m, c, pk.data(), sk.data());
      Verdict ok = ed25519_verify(v, m, c, pk.data(), sg.data()); Bytes s2 = sg; s2[rnd() % 64] ^= 1 << rnd() % 8; Verdict bad = ed25519_verify(v, m, c, pk.data(), s2.data());
      printf("ed25519 %d", v); o(sk); o(m); o(c); o(pk); o(sg); printf(" %d %d\n", ok.code, bad.code == VER_OK); }
    { Bytes sk = rb(57), pk(57), m = rb(rnd() % 200), c = rb(rnd() % 256), sg(114); int v = 1 + rnd() % 2; ed448_pub(pk.data(), sk.data()); ed448_sign(sg.data(), v, m, c, pk.data(), sk.data());
      Verdict ok = ed448_verify(v, m, c, pk.data(), sg.data()); Bytes s2 = sg; s2[rnd() % 114] ^= 1 << rnd() % 8; Verdict bad = ed448_verify(v, m, c, pk.data(), s2.data());
      printf("ed448 %d", v); o(sk); o(m); o(c); o(pk); o(sg); printf(" %d %d\n", ok.code, bad.code == VER_OK); }
    { Bytes u = rb(32); fe25 x, y; elligator25(x, y, fe25::bytes(u.data())); printf("ell"); o(u); o(B(x.v, 32)); o(B(y.v, 32)); puts(""); }
    { Bytes m = rb(rnd() % 200); fe25 x, y; h2c25(x, y, m.data(), m.size()); printf("h2c"); o(m); o(B(x.v, 32)); o(B(y.v, 32)); puts(""); }
    { Bytes a = rb(32), b = rb(32); fe25 x = fe25::bytes(a.data()), y = fe25::bytes(b.data()); printf("fe25"); o(a); o(b); o(B((x * y).v, 32)); o(B((x + y).v, 32)); o(B((x - y).v, 32)); o(B(x.inv().v, 32)); puts(""); }
    { Bytes a = rb(56), b = rb(56); fe448 x = fe448::bytes(a.data()), y = fe448::bytes(b.data()); printf("fe448"); o(a); o(b); o(B((x * y).v, 56)); o(B((x + y).v, 56)); o(B((x - y).v, 56)); o(B(x.inv().v, 56)); puts(""); }
    { Bytes a = rb(32); pt25 p; bool ok = dec(p, a.data()); fe25 x = fe25::zero(), y = x; if (ok) affine(p, x, y); printf("dec25"); o(a); printf(" %d", ok); o(B(x.v, 32)); o(B(y.v, 32)); puts(""); }
    { Bytes a = rb(57); a[56] &= 0x80; pt448 p; bool ok = dec(p, a.data()); fe448 x = fe448::zero(), y = x; if (ok) affine(p, x, y); printf("dec448"); o(a); printf(" %d", ok); o(B(x.v, 56)); o(B(y.v, 56)); puts(""); }
    { Bytes h = rb(114); uint64_t r[7]; sc448_reduce(r, h.data(), 114); printf("sc448"); o(h); o(B(r, 56)); puts(""); }
    { Bytes h = rb(64); uint64_t r[4]; sc25_reduce(r, h.data(), 64); printf("sc25"); o(h); o(B(r, 32)); puts(""); }
  }
  // bit-granular SHA-2
  for (int i = 0; i < 40; i++) { Bytes m = rb(rnd() % 260); unsigned ub = rnd() & 255, nb = 1 + rnd() % 7; printf("sha512bits"); o(m); printf(" %u %u", ub, nb); o(sha2_64(512, m.data(), m.size(), ub, nb)); puts(""); }
  auto t = torsion25(); printf("tors25"); for (auto &p : t) o(B(p.X.v, 32)), o(B(p.Y.v, 32)); puts("");
}
