// Full-radix field arithmetic (Fp25519 by default, Fp448 with -DFLD448) against integers
#include "lib.h"
#include "fgen.h"
#ifdef FLD448
typedef ref::F448 FD; static const PrimeField &FP = Fp448; static const uint64_t A24 = 39082;
#define GENINT gen::int448
#else
typedef ref::F25 FD; static const PrimeField &FP = Fp25519; static const uint64_t A24 = 121666;
#define GENINT gen::int256
#endif
static const int N = FD::N; static const int NB = N * 8;
typedef ref::Fe<FD> fe;
static const Fp_1w_fullradix &K = FP._1w_full;

// operand buffers of exactly the documented size, 32-byte aligned, surrounded by canaries
template <int W> struct Op { Buf<W * 8> b; Op() : b(0) {} uint64_t *w() { return (uint64_t *)b.p; } };
#define CANARY(o) c.check((o).b.intact(), "memory outside " #o " was written")
static void put(uint64_t *d, const uint64_t *w, int n = N) { memcpy(d, w, 8 * n); }
static void same_words(Ctx &c, const char *what, const uint64_t *got, const uint64_t *exp, int n) { c.eq(what, got, exp, 8 * n); }
static void residue(Ctx &c, const char *what, const uint64_t *got, const fe &exp) {
  fe g = fe::words(got, N); if (g != exp) c.fail("%s: residue is wrong\n  got      %s\n  expected %s (mod p)", what, pbt::tohex(g.v, NB).c_str(), pbt::tohex(exp.v, NB).c_str());
}
static bool noncanon(const uint64_t *w) { return ref::big_cmp(w, FD::P, N) >= 0; }
static void operand(Src &s, uint64_t *w) { GENINT(s, w, nullptr); }
static void partner(Src &s, const uint64_t *a, uint64_t *b, bool &solved) { FullGen<FD>::partner(s, a, b, solved); }
SUB(linear, 4000000, 200000000, "an operand or sum is not below p, or operands solved for a boundary") {
  uint64_t x[7], y[7], k[7], kx[7]; bool sv; operand(s, x); partner(s, x, y, sv);
  c.hex("a", x, NB); c.hex("b", y, NB); c.nontrivial(sv || noncanon(x) || noncanon(y)); if (sv) c.label("solved sum or difference");
  fe a = fe::words(x, N), b = fe::words(y, N);
  Op<N> A, B, C; put(A.w(), x); put(B.w(), y);
  K.arith.add(C.w(), A.w(), B.w()); residue(c, "a+b", C.w(), a + b); CANARY(C);
  K.arith.sub(C.w(), A.w(), B.w()); residue(c, "a-b", C.w(), a - b); CANARY(C);
  K.arith.sub(C.w(), B.w(), A.w()); residue(c, "b-a", C.w(), b - a); CANARY(C);
  same_words(c, "operand a after add and sub", A.w(), x, N); same_words(c, "operand b after add and sub", B.w(), y, N);
  Op<N> D; put(D.w(), x); K.arith.neg(D.w()); residue(c, "-a", D.w(), -a); CANARY(D);
  int bit = (int)s.below(2);
  K.arith.cmv(bit, C.w(), A.w(), B.w()); same_words(c, bit ? "conditional move, condition 1" : "conditional move, condition 0", C.w(), bit ? y : x, N); CANARY(C);
  same_words(c, "operand a after cmv", A.w(), x, N); same_words(c, "operand b after cmv", B.w(), y, N);
  (void)k; (void)kx; CANARY(A); CANARY(B);
}
SUB(product, 3000000, 200000000, "an operand not below p or structured words") {
  uint64_t x[7], y[7], e[14]; operand(s, x); operand(s, y); c.hex("a", x, NB); c.hex("b", y, NB);
  c.nontrivial(true); if (noncanon(x) || noncanon(y)) c.label("operand not below p");
  fe a = fe::words(x, N), b = fe::words(y, N);
  Op<N> A, B, C; Op<2 * N> W; put(A.w(), x); put(B.w(), y);
  K.arithex.intmul(W.w(), A.w(), B.w()); ref::big_mul(e, x, N, y, N); same_words(c, "integer product", W.w(), e, 2 * N); CANARY(W);
  K.arithex.intsqr(W.w(), A.w()); ref::big_mul(e, x, N, x, N); same_words(c, "integer square", W.w(), e, 2 * N); CANARY(W);
  K.arith.mul(C.w(), A.w(), B.w()); residue(c, "a*b", C.w(), a * b); CANARY(C);
  same_words(c, "operand a after multiplication", A.w(), x, N); same_words(c, "operand b after multiplication", B.w(), y, N);
  put(C.w(), x); K.arith.sqr(C.w()); residue(c, "a^2", C.w(), a * a); CANARY(C); CANARY(A); CANARY(B);
}
static void wide(Src &s, uint64_t *w, bool &directed) { FullGen<FD>::wide(s, w, directed); }
SUB(reduction, 6000000, 300000000, "integer of full double width") {
  uint64_t w[14]; bool d; wide(s, w, d); c.hex("wide", w, 2 * NB); c.nontrivial(); if (d) c.label("solved for a boundary");
  Op<2 * N> W; Op<N> C; put(W.w(), w, 2 * N); fe e = fe::words(w, 2 * N);
  K.arithex.reduce(C.w(), W.w()); residue(c, "reduction", C.w(), e); CANARY(C); same_words(c, "wide operand after reduction", W.w(), w, 2 * N);
}
SUB(constant, 3000000, 200000000, "operand not below p or solved for the product with the curve constant") {
  uint64_t x[7]; bool sv = s.flip(); operand(s, x);
  if (sv) { FullGen<FD>::near24(s, x); c.label("product near a multiple of the word range"); }
  c.hex("a", x, NB); c.nontrivial(sv || noncanon(x)); fe a = fe::words(x, N);
  Op<N> A, C; put(A.w(), x); K.arithex.mula24(C.w(), A.w()); residue(c, "a24*a", C.w(), a * fe::small(A24)); CANARY(C); same_words(c, "operand after mula24", A.w(), x, N);
}
SUB(pairs, 1000000, 80000000, "two independent halves") {
  uint64_t x[14], y[14], e[28], w[28]; bool d1, d2;
  for (int i = 0; i < 2; i++) { operand(s, x + i * N); operand(s, y + i * N); }
  wide(s, w, d1); wide(s, w + 2 * N, d2); c.hex("a", x, 2 * NB); c.hex("b", y, 2 * NB); c.hex("wide", w, 4 * NB); c.nontrivial();
  Op<2 * N> A, B, C; Op<4 * N> W; put(A.w(), x, 2 * N); put(B.w(), y, 2 * N);
  K.arithex.intmul2(W.w(), A.w(), B.w()); for (int i = 0; i < 2; i++) ref::big_mul(e + 2 * N * i, x + N * i, N, y + N * i, N);
  same_words(c, "double integer product", W.w(), e, 4 * N); CANARY(W);
  K.arithex.intsqr2(W.w(), A.w()); for (int i = 0; i < 2; i++) ref::big_mul(e + 2 * N * i, x + N * i, N, x + N * i, N);
  same_words(c, "double integer square", W.w(), e, 4 * N); CANARY(W);
  put(W.w(), w, 4 * N); K.arithex.reduce2(C.w(), W.w());
  for (int i = 0; i < 2; i++) residue(c, i ? "double reduction, second element" : "double reduction, first element", C.w() + N * i, fe::words(w + 2 * N * i, 2 * N));
  CANARY(C); CANARY(W); CANARY(A); CANARY(B); same_words(c, "operand a", A.w(), x, 2 * N); same_words(c, "operand b", B.w(), y, 2 * N);
}
// history: random sequences over four registers, model checked after every step
SUB(chain, 300000, 20000000, "at least 8 operations") {
  const int R = 4; Op<N> r[R]; fe m[R]; Op<2 * N> W;
  for (int i = 0; i < R; i++) { uint64_t x[7]; operand(s, x); put(r[i].w(), x); m[i] = fe::words(x, N); }
  unsigned n = 1 + (unsigned)s.below(40); c.nontrivial(n >= 8); std::string h;
  for (unsigned i = 0; i < n; i++) {
    unsigned o = (unsigned)s.below(8), d = (unsigned)s.below(R), a = (unsigned)s.below(R), b = (unsigned)s.below(R);
    char t[64]; static const char *nm[] = {"add", "sub", "mul", "sqr", "neg", "mula24", "intmul+reduce", "cmv"}; snprintf(t, sizeof t, "r%u=%s(r%u,r%u) ", d, nm[o], a, b); h += t;
    Op<N> T;
    switch (o) {
      case 0: K.arith.add(T.w(), r[a].w(), r[b].w()); put(r[d].w(), T.w()); m[d] = m[a] + m[b]; break;
      case 1: K.arith.sub(T.w(), r[a].w(), r[b].w()); put(r[d].w(), T.w()); m[d] = m[a] - m[b]; break;
      case 2: K.arith.mul(T.w(), r[a].w(), r[b].w()); put(r[d].w(), T.w()); m[d] = m[a] * m[b]; break;
      case 3: K.arith.sqr(r[d].w()); m[d] = m[d] * m[d]; break;
      case 4: K.arith.neg(r[d].w()); m[d] = -m[d]; break;
      case 5: K.arithex.mula24(T.w(), r[a].w()); put(r[d].w(), T.w()); m[d] = m[a] * fe::small(A24); break;
      case 6: K.arithex.intmul(W.w(), r[a].w(), r[b].w()); K.arithex.reduce(r[d].w(), W.w()); m[d] = m[a] * m[b]; break;
      default: K.arith.cmv((int)(i & 1), T.w(), r[a].w(), r[b].w()); put(r[d].w(), T.w()); m[d] = (i & 1) ? m[b] : m[a];
    }
    if (fe::words(r[d].w(), N) != m[d]) { c.note("operations: %s", h.c_str()); residue(c, "register after the last operation", r[d].w(), m[d]); }
  }
}
