// Lanes act independently and agree with the one-lane operations (Fp25519, or Fp448 with -DFLD448)
#include "fmachine.h"
#ifdef FLD448
static const PrimeField &FP = Fp448;
#else
static const PrimeField &FP = Fp25519;
#endif
static const int N = FD::N;
enum { ADD_, SUB_, MUL_, SQR_, NEG_, ADDSUB_, COMP_, FAST_, INTMUL_, INTSQR_, COMP2_, CMV_, SRT_, LAR_, NOPS };
static const char *opname[] = {"add", "sub", "mul", "sqr", "neg", "addsub", "compress", "compressfast", "intmul+compress", "intsqr+compress", "compress2", "cmv", "srt", "addsublar+compress2"};
static bool has(const Impl &I, int o) {
  switch (o) { case NEG_: return I.neg; case ADDSUB_: return I.addsub || I.addsub4; case INTSQR_: return I.intsqr; case COMP2_: return I.compress2; case CMV_: return I.cmv2; case SRT_: return FIELD == 0 && I.lanes == 4; case LAR_: return I.addsublar; default: return true; }
}
struct Out { uint8_t a[4 * 56], b[4 * 56]; bool two; };
// runs one operation on freshly parsed operands; a: operand bytes, wide: the first operand is a sum of two parsed elements
static void apply(Ctx &c, const Impl &I, int o, const uint8_t *A, const uint8_t *B, const uint8_t *W, bool wide, unsigned mask, Out &out) {
  Elt a(I.bytes), b(I.bytes), r(I.bytes), r2(I.bytes), w(I.bytes); uint8_t t[4 * 56];
  memcpy(t, A, I.lanes * NB); I.unser(a.p(), t); memcpy(t, B, I.lanes * NB); I.unser(b.p(), t);
  if (wide) { memcpy(t, W, I.lanes * NB); I.unser(w.p(), t); if (o == COMP_ || o == FAST_ || o == MUL_ || o == INTMUL_ || o == COMP2_) I.sub(a.p(), a.p(), w.p()); }
  out.two = false; I.copy(r.p(), a.p());
  switch (o) {
    case ADD_: I.add(r.p(), a.p(), b.p()); break; case SUB_: I.sub(r.p(), a.p(), b.p()); break; case MUL_: I.mul(r.p(), a.p(), b.p()); break;
    case SQR_: I.sqr(r.p()); break; case NEG_: I.neg(r.p()); break;
    case ADDSUB_: out.two = true; if (I.addsub4) I.addsub4(r.p(), r2.p(), a.p(), b.p()); else { I.copy(r2.p(), b.p()); I.addsub(r.p(), r2.p()); } break;
    case COMP_: I.compress(r.p()); break; case FAST_: I.compressfast(r.p()); break;
    case INTMUL_: I.intmul(r.p(), a.p(), b.p()); I.compress(r.p()); break; case INTSQR_: I.intsqr(r.p()); I.compress(r.p()); break;
    case COMP2_: out.two = true; I.intmul(r.p(), a.p(), b.p()); I.intmul(r2.p(), b.p(), b.p()); I.compress2(r.p(), r2.p()); break;
    case CMV_: I.cmv2(_mm256_set_epi64x(0, mask >> 1, 0, mask & 1), r.p(), a.p(), b.p()); break;
    case LAR_: out.two = true; I.intmul(r.p(), a.p(), b.p()); I.intmul(r2.p(), b.p(), b.p()); I.addsublar(r.p(), r2.p()); I.compress2(r.p(), r2.p()); break;
    default: I.srt(r.p(), b.p());
  }
  I.ser(out.a, r.p()); if (out.two) I.ser(out.b, r2.p());
  c.check(a.intact() && b.intact() && r.intact() && r2.intact(), "memory around an element was written");
}
static void operands(Src &s, uint8_t *A, int lanes) { for (int l = 0; l < lanes; l++) { uint64_t w[7]; GENINT(s, w, nullptr); memcpy(A + l * NB, w, NB); } }
static void isolation(Src &s, Ctx &c, int lanes) {
  const Impl &I = *impls(FIELD, lanes); uint8_t A[4 * 56], B[4 * 56], W[4 * 56]; operands(s, A, lanes); operands(s, B, lanes); operands(s, W, lanes);
  int o = (int)s.below(NOPS); if (!has(I, o)) o = MUL_; bool wide = s.flip(); unsigned mask = (unsigned)s.below(4); Out x, y;
  c.note("operation %s%s", opname[o], wide ? " on a difference" : ""); c.hex("a", A, lanes * NB); c.hex("b", B, lanes * NB); c.label(opname[o]);
  apply(c, I, o, A, B, W, wide, mask, x);
  int l = (int)s.below(lanes); uint8_t z[3 * 56]; operands(s, z, 3); memcpy(A + l * NB, z, NB); if (s.flip()) memcpy(B + l * NB, z + NB, NB); if (s.flip()) memcpy(W + l * NB, z + 2 * NB, NB);
  unsigned m2 = s.flip() ? mask ^ (1u << l) : mask; c.note("changed lane %d", l); c.hex("a of that lane", A + l * NB, NB); c.nontrivial(true);
  apply(c, I, o, A, B, W, wide, m2 & 3, y);
  for (int k = 0; k < lanes; k++) if (k != l) { c.eq("another lane after changing one lane", y.a + k * NB, x.a + k * NB, NB); if (x.two) c.eq("another lane of the second result after changing one lane", y.b + k * NB, x.b + k * NB, NB); }
}
SUB(isolation2, 1500000, 100000000, "one lane's operands replaced") { isolation(s, c, 2); }
SUB(isolation4, 1000000, 80000000, "one lane's operands replaced") { isolation(s, c, 4); }
// every lane equals the one-lane operation
static void agree(Src &s, Ctx &c, int lanes) {
  const Impl &I = *impls(FIELD, lanes), &J = *impls(FIELD, 1); uint8_t A[4 * 56], B[4 * 56], W[4 * 56]; operands(s, A, lanes); operands(s, B, lanes); operands(s, W, lanes);
  static const int ops[] = {ADD_, SUB_, MUL_, SQR_, NEG_, COMP_, FAST_, INTMUL_, ADDSUB_, SRT_}; int o = ops[s.below(10)]; if (!has(I, o)) o = MUL_; bool wide = s.flip() && o != SRT_; Out x, y;
  c.note("operation %s%s", opname[o], wide ? " on a difference" : ""); c.hex("a", A, lanes * NB); c.hex("b", B, lanes * NB); c.label(opname[o]); c.nontrivial(true);
  apply(c, I, o, A, B, W, wide, 0, x);
  for (int l = 0; l < lanes; l++) {
    if (o == ADDSUB_) { Elt a(J.bytes), b(J.bytes); uint8_t t[56]; memcpy(t, A + l * NB, NB); J.unser(a.p(), t); memcpy(t, B + l * NB, NB); J.unser(b.p(), t); J.addsub(a.p(), b.p()); J.ser(y.a, a.p()); J.ser(y.b, b.p()); }
    else apply(c, J, o, A + l * NB, B + l * NB, W + l * NB, wide, 0, y);
    char n[64]; snprintf(n, sizeof n, "lane %d against the one-lane operation", l); c.eq(n, x.a + l * NB, y.a, NB); if (o == ADDSUB_) c.eq(n, x.b + l * NB, y.b, NB);
  }
}
SUB(agree2, 1500000, 100000000, "two lanes against the one-lane operation") { agree(s, c, 2); }
SUB(agree4, 1000000, 80000000, "four lanes against the one-lane operation") { agree(s, c, 4); }
// packing, unpacking, parse, serialise, copy, zero and comparison order
SUB(packing2, 1500000, 100000000, "two different lanes") {
  const Impl &I = *impls(FIELD, 2), &J = *impls(FIELD, 1); uint8_t A[2 * 56], o[2 * 56]; operands(s, A, 2); c.hex("lanes", A, 2 * NB); c.nontrivial(memcmp(A, A + NB, NB));
  Elt a(J.bytes), b(J.bytes), a2(J.bytes), b2(J.bytes), v(I.bytes), v2(I.bytes); fe f[2] = {fe::words((uint64_t *)A, N), fe()}; uint64_t w[7]; memcpy(w, A + NB, NB); f[1] = fe::words(w, N); memcpy(w, A, NB); f[0] = fe::words(w, N);
  J.unser(a.p(), A); J.unser(b.p(), A + NB); bool un = s.flip(); if (un) { J.sub(a.p(), a.p(), b.p()); f[0] = f[0] - f[1]; }
  FP._2w_red.arithex.inter((__m256i *)v.p(), (uint64_t *)a.p(), (uint64_t *)b.p());
  I.ser(o, v.p()); for (int l = 0; l < 2; l++) c.eq("packed lanes serialised", o + l * NB, f[l].v, NB);
  FP._2w_red.arithex.deinter((uint64_t *)a2.p(), (uint64_t *)b2.p(), (__m256i *)v.p());
  J.ser(o, a2.p()); c.eq("first element unpacked", o, f[0].v, NB); J.ser(o, b2.p()); c.eq("second element unpacked", o, f[1].v, NB);
  memcpy(o, f[0].v, NB); memcpy(o + NB, f[1].v, NB); I.unser(v2.p(), o); FP._2w_red.arithex.deinter((uint64_t *)a2.p(), (uint64_t *)b2.p(), (__m256i *)v2.p());
  J.ser(o, a2.p()); c.eq("first element parsed", o, f[0].v, NB); J.ser(o, b2.p()); c.eq("second element parsed", o, f[1].v, NB);
  I.copy(v2.p(), v.p()); c.eq("copied lanes", v2.p(), v.p(), I.bytes); I.zero(v2.p()); I.ser(o, v2.p()); memset(A, 0, sizeof A); c.eq("zeroed lanes", o, A, 2 * NB);
  c.check(a.intact() && b.intact() && a2.intact() && b2.intact() && v.intact() && v2.intact(), "memory around an element was written");
}
SUB(packing4, 800000, 60000000, "four lanes") {
  const Impl &I = *impls(FIELD, 4); uint8_t A[4 * 56], o[4 * 56], z[4 * 56]; operands(s, A, 4); c.hex("lanes", A, 4 * NB); c.nontrivial(memcmp(A, A + NB, NB) && memcmp(A + 2 * NB, A + 3 * NB, NB));
  Elt v(I.bytes), v2(I.bytes); I.unser(v.p(), A); I.ser(o, v.p()); for (int l = 0; l < 4; l++) { uint64_t w[7]; memcpy(w, A + l * NB, NB); fe f = fe::words(w, N); c.eq("serialised lane", o + l * NB, f.v, NB); }
  I.copy(v2.p(), v.p()); c.eq("copied lanes", v2.p(), v.p(), I.bytes);
  int l = (int)s.below(4); uint8_t B[4 * 56]; memcpy(B, o, sizeof B); B[l * NB + s.below(NB - 1)] ^= (uint8_t)(1 + s.below(255)); I.unser(v2.p(), B);
  long long w[4]; _mm256_storeu_si256((__m256i *)w, I.cmpv(v.p(), v2.p())); for (int k = 0; k < 4; k++) c.eqi("comparison flags exactly the changed lane", w[k] != 0, k == l && memcmp(B, o, 4 * NB) ? 1 : 0);
  I.zero(v2.p()); I.ser(z, v2.p()); memset(A, 0, sizeof A); c.eq("zeroed lanes", z, A, 4 * NB); c.check(v.intact() && v2.intact(), "memory around an element was written");
}
#ifndef FLD448
// the two products of the point formulas, a*b and (a with its lanes exchanged)*b, from one call
extern "C" void intmul2_Fp255_2w_redradix(__m256i *, __m256i *, __m256i *, __m256i *) __attribute__((weak));
SUB(products2, 600000, 40000000, "lanes differ") {
  if (!intmul2_Fp255_2w_redradix) s.discard();
  const Impl &I = *impls(0, 2); uint8_t A[2 * 56], B[2 * 56], W[2 * 56], o[2 * 56]; Elt a(I.bytes), b(I.bytes), w(I.bytes), d(I.bytes), e(I.bytes), a0(I.bytes), b0(I.bytes); fe x[2], y[2];
  operands(s, A, 2); operands(s, B, 2); operands(s, W, 2); c.hex("a", A, 2 * NB); c.hex("b", B, 2 * NB); c.nontrivial(memcmp(A, A + NB, NB) && memcmp(B, B + NB, NB));
  auto val = [&](const uint8_t *p) { uint64_t t[7]; memcpy(t, p, NB); return fe::words(t, N); };
  I.unser(a.p(), A); I.unser(b.p(), B); for (int l = 0; l < 2; l++) { x[l] = val(A + l * NB); y[l] = val(B + l * NB); }
  unsigned m = (unsigned)s.below(4); if (m) { c.hex("w", W, 2 * NB); c.note("%s%s", m & 1 ? "a - w compressed " : "", m & 2 ? "b - w compressed" : ""); I.unser(w.p(), W); }
  if (m & 1) { I.sub(a.p(), a.p(), w.p()); I.compress(a.p()); for (int l = 0; l < 2; l++) x[l] = x[l] - val(W + l * NB); }
  if (m & 2) { I.sub(b.p(), b.p(), w.p()); I.compress(b.p()); for (int l = 0; l < 2; l++) y[l] = y[l] - val(W + l * NB); }
  I.copy(a0.p(), a.p()); I.copy(b0.p(), b.p());
  intmul2_Fp255_2w_redradix((__m256i *)d.p(), (__m256i *)e.p(), (__m256i *)a.p(), (__m256i *)b.p()); I.compress2(d.p(), e.p());
  I.ser(o, d.p()); for (int l = 0; l < 2; l++) { fe f = x[l] * y[l]; c.eq("product of the lanes", o + l * NB, f.v, NB); }
  I.ser(o, e.p()); for (int l = 0; l < 2; l++) { fe f = x[1 - l] * y[l]; c.eq("product of the exchanged lanes", o + l * NB, f.v, NB); }
  c.check(!memcmp(a0.p(), a.p(), I.bytes) && !memcmp(b0.p(), b.p(), I.bytes), "an operand was written"); c.check(a.intact() && b.intact() && d.intact() && e.intact(), "memory around an element was written");
}
#endif
