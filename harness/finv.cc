// Inversion and square roots (Fp25519, or Fp448 with -DFLD448) against exact powers over the integers modulo p
#include "fred.h"
#ifdef FLD448
typedef ref::F448 FD; static const PrimeField &FP = Fp448; static const int FIELD = 1;
#define GENINT gen::int448
#else
typedef ref::F25 FD; static const PrimeField &FP = Fp25519; static const int FIELD = 0;
#define GENINT gen::int256
#endif
static const int N = FD::N, NB = FD::BYTES;
typedef ref::Fe<FD> fe;
static const Fp_1w_fullradix &K = FP._1w_full;
// operand: any integer below 2^(64N), or one whose inverse or square root is structured
static void operand(Src &s, Ctx &c, uint64_t *w) {
  GENINT(s, w, nullptr); if (s.below(3)) return;
  fe f = fe::words(w, N); if (f.is0()) return;
  if (s.flip()) { f = f.inv(); c.label("structured inverse"); } else { f = f * f; c.label("structured root"); }
  memcpy(w, f.v, NB); if (s.flip()) { uint64_t t[7]; if (!ref::big_add(t, w, FD::P, N)) memcpy(w, t, NB); }
}
static bool noncanon(const uint64_t *w) { return ref::big_cmp(w, FD::P, N) >= 0; }
static void is_inverse(Ctx &c, const char *what, const fe &x, const fe &y) {
  if (x.is0() ? !y.is0() : x * y != fe::small(1)) c.fail("%s: wrong inverse\n  x %s\n  y %s", what, pbt::tohex(x.v, NB).c_str(), pbt::tohex(y.v, NB).c_str());
}
SUB(inverse_full, 1200000, 100000000, "operand not below p, structured, zero or with structured inverse") {
  uint64_t x[7]; operand(s, c, x); c.hex("x", x, NB); c.nontrivial(true); fe f = fe::words(x, N); if (f.is0()) c.label("zero");
  if (noncanon(x)) c.label("not below p");
  Buf<8 * N> A, B; memcpy(A, x, NB); K.arith.inv((argElement_1w)B.p, (argElement_1w)A.p);
  is_inverse(c, "full radix", f, fe::bytes(B)); c.eq("operand of the inversion", A, x, NB); c.check(A.intact() && B.intact(), "memory outside the elements was written");
}
// one-lane reduced radix: freshly parsed, sums and compressed products
static void red_operand(Src &s, Ctx &c, Elt &e, fe &f) {
  const Impl &I = *impls(FIELD, 1); uint64_t x[7], y[7]; operand(s, c, x); uint8_t b[56]; memcpy(b, x, NB); c.hex("x", x, NB);
  I.unser(e.p(), b); f = fe::words(x, N);
  if (s.below(3) == 0) { GENINT(s, y, nullptr); c.hex("y", y, NB); memcpy(b, y, NB); Elt g(I.bytes); I.unser(g.p(), b);
    switch (s.below(3)) { case 0: I.add(e.p(), e.p(), g.p()); f = f + fe::words(y, N); break; case 1: I.sub(e.p(), e.p(), g.p()); f = f - fe::words(y, N); I.compressfast(e.p()); break;
      default: I.mul(e.p(), e.p(), g.p()); f = f * fe::words(y, N); } c.label("computed operand"); }
}
SUB(inverse_red, 1200000, 100000000, "parsed or computed reduced-radix operand") {
  const Impl &I = *impls(FIELD, 1); Elt e(I.bytes), r(I.bytes), t(I.bytes); fe f; red_operand(s, c, e, f); c.nontrivial(true); if (f.is0()) c.label("zero");
  uint8_t b[56], before[512]; memcpy(before, e.p(), I.bytes);
  I.inv(r.p(), e.p()); c.eq("operand of the inversion", e.p(), before, I.bytes); I.copy(t.p(), r.p()); I.ser(b, t.p());
  is_inverse(c, I.name, f, fe::bytes(b)); c.check(e.intact() && r.intact(), "memory outside the elements was written");
}
#ifdef FLD448
// c = a^((p-3)/4): c^2 * a = 1 exactly when a is a non-zero square
static fe expected_root(const fe &a) {
  uint64_t e[7]; for (int i = 0; i < 7; i++) e[i] = (FD::P[i] >> 2) | (i < 6 ? FD::P[i + 1] << 62 : 0);     // (p-3)/4 = floor(p/4)
  return a.pow(e);
}
SUB(root, 400000, 40000000, "parsed or computed operand, squares and non-squares") {
  const Impl &I = *impls(FIELD, 1); Elt e(I.bytes), r(I.bytes), t(I.bytes); fe f; red_operand(s, c, e, f); c.nontrivial(true);
  uint8_t b[56], before[512]; memcpy(before, e.p(), I.bytes);
  I.srt(r.p(), e.p()); c.eq("operand of the root", e.p(), before, I.bytes); I.copy(t.p(), r.p()); I.ser(b, t.p()); fe x = expected_root(f); c.label(f.is0() ? "zero" : x * x * f == fe::small(1) ? "square" : "non-square");
  if (fe::bytes(b) != x) c.fail("inverse square root power is wrong\n  a        %s\n  got      %s\n  expected %s", pbt::tohex(f.v, NB).c_str(), pbt::tohex(b, NB).c_str(), pbt::tohex(x.v, NB).c_str());
  c.check(e.intact() && r.intact(), "memory outside the elements was written");
}
#else
// u := B with v*B^2 = u if u/v is a square (B = u v^3 (u v^7)^((p-5)/8), times sqrt(-1) when v*B^2 = -u)
static fe sqrtm1() { uint64_t e[4]; for (int i = 0; i < 4; i++) e[i] = (FD::P[i] >> 2) | (i < 3 ? FD::P[i + 1] << 62 : 0); return fe::small(2).pow(e); }   // 2^((p-1)/4)
static fe expected_root(const fe &u, const fe &v, const char **cls) {
  static const fe I = sqrtm1();
  uint64_t e[4]; for (int i = 0; i < 4; i++) e[i] = (FD::P[i] >> 3) | (i < 3 ? FD::P[i + 1] << 61 : 0);     // (p-5)/8 = floor(p/8)
  fe v3 = v * v * v, v7 = v3 * v3 * v, B = u * v3 * (u * v7).pow(e), t = v * B * B;
  *cls = "square"; if (t == u) { if (u.is0()) *cls = "zero"; return B; }
  if (t == -u) return B * I;
  *cls = u.is0() || v.is0() ? "zero" : "non-square"; return B;
}
static void root_operands(Src &s, Ctx &c, uint64_t *u, uint64_t *v) {
  GENINT(s, v, nullptr); GENINT(s, u, nullptr);
  switch (s.below(4)) {
    case 0: break;
    case 1: { fe x = fe::words(u, 4); x = x * x * fe::words(v, 4); memcpy(u, x.v, 32); break; }             // a square
    case 2: { fe x = fe::words(u, 4); x = -(x * x * fe::words(v, 4)); memcpy(u, x.v, 32); break; }          // minus a square: also a square
    default: memset(u, 0, 32); u[0] = 1; }
  c.hex("u", u, 32); c.hex("v", v, 32);
}
static void same_root(Ctx &c, const char *what, const fe &u, const fe &v, const uint8_t *got) {
  const char *cls; fe x = expected_root(u, v, &cls), g = fe::bytes(got); c.label(cls);
  // the sign is not promised, only that the square is right
  if (g != x && g != -x) c.fail("%s: square root of u/v is wrong (%s)\n  u        %s\n  v        %s\n  got      %s\n  expected %s (or its negative)", what, cls, pbt::tohex(u.v, 32).c_str(), pbt::tohex(v.v, 32).c_str(), pbt::tohex(g.v, 32).c_str(), pbt::tohex(x.v, 32).c_str());
}
SUB(root_full, 400000, 40000000, "squares, non-squares, zero") {
  uint64_t u[4], v[4]; root_operands(s, c, u, v); c.nontrivial(true); Buf<32> A, B; memcpy(A, v, 32); memcpy(B, u, 32);
  K.arith.srt((argElement_1w)B.p, (argElement_1w)A.p); same_root(c, "full radix", fe::words(u, 4), fe::words(v, 4), B);
  c.eqi("residue of the operand after the root", fe::bytes(A) == fe::words(v, 4), 1); c.check(A.intact() && B.intact(), "memory outside the elements was written");
}
static void root_red(Src &s, Ctx &c, int lanes) {
  const Impl &I = *impls(0, lanes); uint64_t u[4][4], v[4][4]; uint8_t bu[128], bv[128], o[128];
  for (int l = 0; l < lanes; l++) { root_operands(s, c, u[l], v[l]); memcpy(bu + 32 * l, u[l], 32); memcpy(bv + 32 * l, v[l], 32); }
  Elt A(I.bytes), B(I.bytes), t(I.bytes); I.unser(A.p(), bv); I.unser(B.p(), bu); uint8_t before[512]; memcpy(before, A.p(), I.bytes); c.nontrivial(true);
  I.srt(B.p(), A.p()); c.eq("operand of the root", A.p(), before, I.bytes); I.copy(t.p(), B.p()); I.ser(o, t.p());
  for (int l = 0; l < lanes; l++) { char n[64]; snprintf(n, sizeof n, "%s lane %d", I.name, l); same_root(c, n, fe::words(u[l], 4), fe::words(v[l], 4), o + 32 * l); }
  c.check(A.intact() && B.intact(), "memory outside the elements was written");
}
SUB(root_red1, 400000, 40000000, "squares, non-squares, zero") { root_red(s, c, 1); }
SUB(root_red4, 150000, 15000000, "squares, non-squares, zero in four lanes") { root_red(s, c, 4); }
#endif
