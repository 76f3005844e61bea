// Encoding, comparison and parity (Fp25519, or Fp448 with -DFLD448), every representation
#include "fmachine.h"
#ifdef FLD448
static const PrimeField &FP = Fp448;
#else
static const PrimeField &FP = Fp25519;
#endif
static const int N = FD::N;
static const Fp_1w_fullradix &K1 = FP._1w_full;
// a value close to x: one bit or byte changed, or a boundary value
static fe neighbour(Src &s, const fe &x) {
  uint64_t w[7]; memcpy(w, x.v, NB);
  switch (s.below(4)) {
    case 0: ((uint8_t *)w)[s.below(NB)] ^= (uint8_t)(1 << s.below(8)); break;
    case 1: ((uint8_t *)w)[s.below(NB)] ^= (uint8_t)(1 + s.below(255)); break;
    case 2: gen::add_small(w, N, gen::small_delta(s)); break;
    default: GENINT(s, w, nullptr);
  }
  return fe::words(w, N);
}
SUB(full, 3000000, 200000000, "operand or byte string not below p, or near its neighbour") {
  uint64_t x[7], y[7]; GENINT(s, x, nullptr); c.hex("x", x, NB); fe f = fe::words(x, N), g;
  Buf<8 * N> A, B, S; memcpy(A, x, NB); c.nontrivial(true); if (ref::big_cmp(x, FD::P, N) >= 0) c.label("not below p");
  K1.arith.misc.ser(S, (argElement_1w)A.p); c.eq("serialised bytes", S, f.v, NB); c.check(S.intact() && A.intact(), "memory outside the buffers was written");
  if (fe::bytes(A) != f) c.fail("serialising changed the element");
  memcpy(S, x, NB); K1.arith.misc.unser((argElement_1w)B.p, S); if (fe::bytes(B) != f) c.fail("parsed element has another residue: %s", pbt::tohex(B, NB).c_str());
  c.eq("parsed byte string", S, x, NB); c.check(S.intact() && B.intact(), "memory outside the buffers was written");
  memcpy(A, x, NB);
  if (s.flip()) { g = f; memcpy(y, f.v, NB); if (s.flip()) { uint64_t t[7]; if (!ref::big_add(t, y, FD::P, N)) memcpy(y, t, NB); } } else { g = neighbour(s, f); memcpy(y, g.v, NB); }
  c.label(f == g ? "equal" : "different"); c.hex("y", y, NB); memcpy(B, y, NB);
  int r = K1.arith.cmp((argElement_1w)A.p, (argElement_1w)B.p); if ((r == 0) != (f == g)) c.fail("comparison returned %d for %s residues", r, f == g ? "equal" : "different");
  if (fe::bytes(A) != f || fe::bytes(B) != g) c.fail("comparison changed an operand's residue");
  memcpy(A, x, NB);
  if (K1.arith.sgn) { int o = K1.arith.sgn((argElement_1w)A.p); if (o != (f.odd() ? 1 : 0)) c.fail("parity %d, residue is %s", o, f.odd() ? "odd" : "even"); if (fe::bytes(A) != f) c.fail("parity changed the operand's residue"); }
}
static void reduced(Src &s, Ctx &c, int lanes) {
  const Impl &I = *impls(FIELD, lanes); Machine m(I, s, c); for (int i = 0; i < R; i++) m.load(i);
  unsigned n = (unsigned)s.below(6); for (unsigned i = 0; i < n; i++) m.step();
  int i = (int)s.below(R); uint8_t before[512]; memcpy(before, m.e[i]->p(), I.bytes); uint8_t b[4 * 56];
  c.note("operations: %s register r%d", m.log.c_str(), i); c.nontrivial(true); if (m.lev[i] > 1) c.label("uncompressed element");
  Buf<4 * 56> S; I.ser(S, m.e[i]->p()); for (int l = 0; l < lanes; l++) c.eq("serialised bytes of a lane", S + l * NB, m.v[i][l].v, NB);
  for (int j = lanes * NB; j < 4 * 56; j++) if (S[j] != 0xa5) c.fail("serialising wrote past the %d bytes of its encoding", lanes * NB);
  c.check(S.intact(), "memory around the byte buffer was written"); c.eq("element after serialising", m.e[i]->p(), before, I.bytes);
  // the same residues parsed from their canonical bytes, possibly changed in some lanes
  Elt q(I.bytes); fe g[4]; for (int l = 0; l < lanes; l++) { g[l] = s.flip() ? m.v[i][l] : neighbour(s, m.v[i][l]); memcpy(b + l * NB, g[l].v, NB); }
  if (s.flip()) for (int l = 0; l < lanes; l++) { uint64_t t[7], w[7]; memcpy(w, b + l * NB, NB); if (!ref::big_add(t, w, FD::P, N)) memcpy(b + l * NB, t, NB); }   // other bytes, same residue
  c.hex("compared with", b, lanes * NB); I.unser(q.p(), b); c.check(q.intact(), "parsing wrote outside the element");
  uint8_t o[4 * 56]; I.ser(o, q.p()); for (int l = 0; l < lanes; l++) c.eq("parsed and serialised bytes", o + l * NB, g[l].v, NB);
  int r[4]; memcpy(before, m.e[i]->p(), I.bytes);
  if (lanes == 1) r[0] = I.cmp1(m.e[i]->p(), q.p()); else { long long w[4]; _mm256_storeu_si256((__m256i *)w, I.cmpv(m.e[i]->p(), q.p())); for (int l = 0; l < lanes; l++) r[l] = w[lanes == 2 ? 2 * l : l] != 0; }
  for (int l = 0; l < lanes; l++) { if ((r[l] == 0) != (m.v[i][l] == g[l])) c.fail("%s: comparison says lane %d is %s", I.name, l, r[l] ? "different, residues are equal" : "equal, residues differ"); c.label(r[l] ? "different lane" : "equal lane"); }
  if (I.sgn1) c.eqi("parity", I.sgn1(m.e[i]->p()), m.v[i][0].odd());
  if (I.sgnv) { long long w[4]; _mm256_storeu_si256((__m256i *)w, I.sgnv(m.e[i]->p())); c.eqi("parity of lane 0", w[0], m.v[i][0].odd()); c.eqi("parity of lane 1", w[2], m.v[i][1].odd()); }
  c.eq("element after comparison and parity", m.e[i]->p(), before, I.bytes);
}
SUB(reduced1, 2000000, 150000000, "element computed by up to five operations") { reduced(s, c, 1); }
SUB(reduced2, 1500000, 100000000, "element computed by up to five operations") { reduced(s, c, 2); }
SUB(reduced4, 1000000, 80000000, "element computed by up to five operations") { reduced(s, c, 4); }
