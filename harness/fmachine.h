// Stateful model of the reduced-radix operations: registers of canaried elements with their integer values
#pragma once
#include "fred.h"
#ifdef FLD448
typedef ref::F448 FD; static const int FIELD = 1;
#define GENINT gen::int448
#else
typedef ref::F25 FD; static const int FIELD = 0;
#define GENINT gen::int256
#endif
static const int NB = FD::BYTES;
typedef ref::Fe<FD> fe;
static const int R = 6;
struct Machine {
  const Impl &K; Ctx &c; Src &s; Elt *e[R]; Elt store[R]; fe v[R][4]; int lev[R]; std::string log;
  Machine(const Impl &k, Src &s_, Ctx &c_) : K(k), c(c_), s(s_) { for (int i = 0; i < R; i++) { store[i].n = K.bytes; e[i] = &store[i]; } }
  void load(int i) {
    uint8_t b[4 * 56];
    for (int l = 0; l < K.lanes; l++) { uint64_t w[7]; GENINT(s, w, nullptr); memcpy(b + l * NB, w, NB); v[i][l] = fe::words(w, FD::N); }
    K.unser(e[i]->p(), b); lev[i] = 1; c.note("r%d = %s", i, pbt::tohex(b, K.lanes * NB).c_str());
  }
  void op(const char *f, ...) __attribute__((format(printf, 2, 3))) { char t[120]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a); log += t; log += "; "; }
  void verify(int i) {
    uint8_t b[4 * 56]; Elt t(K.bytes); K.copy(t.p(), e[i]->p()); K.ser(b, t.p());
    for (int l = 0; l < K.lanes; l++) {
      fe g = fe::bytes(b + l * NB);
      if (g != v[i][l]) { c.note("operations: %s", log.c_str()); c.fail("%s: register r%d lane %d after the last operation\n  got      %s\n  expected %s", K.name, i, l, pbt::tohex(b + l * NB, NB).c_str(), pbt::tohex(v[i][l].v, NB).c_str()); }
    }
    if (!e[i]->intact()) { c.note("operations: %s", log.c_str()); c.fail("%s: memory around register r%d was written", K.name, i); }
  }
  int any(int maxlev) { int i = (int)s.below(R); for (int k = 0; k < R; k++, i = (i + 1) % R) if (lev[i] <= maxlev) return i; return -1; }
  int other(int d) { int i = (int)s.below(R - 1); return i >= d ? i + 1 : i; }
  void lev_ok(int &i) { if (i < 0) { i = (int)s.below(R); K.compress(e[i]->p()); lev[i] = 1; op("compress(r%d)", i); } }
  void muldisc(int a, int b);      // multiplication operands allowed together
  void step();
};
// Operand discipline of the library's own callers: every operand has passed at most one addition or subtraction since it was
// compressed; in Fp448 a product takes at most one difference (the ladder multiplies a sum by a difference).
static const int MAXW = FIELD == 1 ? 6 : 9;
void Machine::muldisc(int a, int b) {
  if (lev[a] * lev[b] > MAXW) { K.compressfast(e[b]->p()); lev[b] = 1; op("compressfast(r%d)", b); verify(b); }
  if (lev[a] * lev[b] > MAXW) { K.compressfast(e[a]->p()); lev[a] = 1; op("compressfast(r%d)", a); verify(a); }
}
void Machine::step() {
  unsigned o = (unsigned)s.below(19); int a, b, d = (int)s.below(R), d2;
  switch (o) {
    case 0: a = any(1); lev_ok(a); b = any(1); lev_ok(b); K.add(e[d]->p(), e[a]->p(), e[b]->p()); for (int l = 0; l < K.lanes; l++) v[d][l] = v[a][l] + v[b][l]; lev[d] = 2; op("r%d=add(r%d,r%d)", d, a, b); verify(d); break;
    case 1: case 2: a = any(1); lev_ok(a); b = any(1); lev_ok(b); K.sub(e[d]->p(), e[a]->p(), e[b]->p()); for (int l = 0; l < K.lanes; l++) v[d][l] = v[a][l] - v[b][l]; lev[d] = 3; op("r%d=sub(r%d,r%d)", d, a, b); verify(d); break;
    case 3: {       // sum and difference
      a = any(1); lev_ok(a); b = any(1); lev_ok(b); if (a == b) { b = other(a); if (lev[b] > 1) { K.compress(e[b]->p()); lev[b] = 1; op("compress(r%d)", b); } }
      if (K.addsub4) { while (d == a || d == b) d = (d + 1) % R; d2 = other(d); while (d2 == a || d2 == b || d2 == d) d2 = (d2 + 1) % R; K.addsub4(e[d]->p(), e[d2]->p(), e[a]->p(), e[b]->p());
        fe sv[4], dv[4]; for (int l = 0; l < K.lanes; l++) { sv[l] = v[a][l] + v[b][l]; dv[l] = v[a][l] - v[b][l]; }
        for (int l = 0; l < K.lanes; l++) { v[d][l] = sv[l]; v[d2][l] = dv[l]; } lev[d] = 2; lev[d2] = 3; op("r%d,r%d=addsub(r%d,r%d)", d, d2, a, b); verify(d); verify(d2);
      } else { K.addsub(e[a]->p(), e[b]->p()); for (int l = 0; l < K.lanes; l++) { fe x = v[a][l], y = v[b][l]; v[a][l] = x + y; v[b][l] = x - y; } lev[a] = 2; lev[b] = 3; op("addsub(r%d,r%d)", a, b); verify(a); verify(b); }
      break; }
    case 4: case 5: case 6: a = any(3); b = any(3); muldisc(a, b); K.mul(e[d]->p(), e[a]->p(), e[b]->p()); { fe t[4]; for (int l = 0; l < K.lanes; l++) t[l] = v[a][l] * v[b][l]; for (int l = 0; l < K.lanes; l++) v[d][l] = t[l]; } lev[d] = 1; op("r%d=mul(r%d,r%d)", d, a, b); verify(d); break;
    case 7: case 8: muldisc(d, d); K.sqr(e[d]->p()); for (int l = 0; l < K.lanes; l++) v[d][l] = v[d][l] * v[d][l]; lev[d] = 1; op("sqr(r%d)", d); verify(d); break;
    case 9: K.compress(e[d]->p()); lev[d] = 1; op("compress(r%d)", d); verify(d); break;
    case 10: K.compressfast(e[d]->p()); lev[d] = 1; op("compressfast(r%d)", d); verify(d); break;
    case 11: if (!K.neg) return; a = any(1); lev_ok(a); K.neg(e[a]->p()); for (int l = 0; l < K.lanes; l++) v[a][l] = -v[a][l]; lev[a] = 2; op("neg(r%d)", a); verify(a); break;
    case 12: if (!K.ngz) return; { a = any(1); lev_ok(a); d = other(a); K.ngz(e[d]->p(), e[a]->p());
      if (K.lanes == 2) { v[d][0] = -v[a][0]; v[d][1] = v[a][1]; } else { v[d][0] = v[a][1]; v[d][1] = v[a][0]; v[d][2] = -v[a][2]; v[d][3] = v[a][3]; } 
      lev[d] = 2; op("r%d=ngz(r%d)", d, a); verify(d); break; }
    case 13: a = any(3); b = any(3); d = other(a); if (d == b) return; muldisc(a, b); K.intmul(e[d]->p(), e[a]->p(), e[b]->p()); for (int l = 0; l < K.lanes; l++) v[d][l] = v[a][l] * v[b][l]; K.compress(e[d]->p()); lev[d] = 1; op("r%d=compress(intmul(r%d,r%d))", d, a, b); verify(d); break;
    case 14: if (!K.intsqr) return; muldisc(d, d); K.intsqr(e[d]->p()); K.compress(e[d]->p()); for (int l = 0; l < K.lanes; l++) v[d][l] = v[d][l] * v[d][l]; lev[d] = 1; op("compress(intsqr(r%d))", d); verify(d); break;
    case 15: if (!K.compress2) return; d2 = other(d); K.compress2(e[d]->p(), e[d2]->p()); lev[d] = lev[d2] = 1; op("compress2(r%d,r%d)", d, d2); verify(d); verify(d2); break;
    case 16: if (!K.newfast2) return; d2 = other(d); K.newfast2(e[d]->p(), e[d2]->p()); lev[d] = lev[d2] = 1; op("new_compressfast2(r%d,r%d)", d, d2); verify(d); verify(d2); break;
    case 17: {      // conditional move, one condition per lane
      if (!K.cmv1 && !K.cmv2) return; a = any(3); b = any(3); unsigned m = (unsigned)s.below(1u << K.lanes); fe t[4];
      if (K.cmv1) K.cmv1((int)m, e[d]->p(), e[a]->p(), e[b]->p()); else K.cmv2(_mm256_set_epi64x(0, m >> 1, 0, m & 1), e[d]->p(), e[a]->p(), e[b]->p());
      for (int l = 0; l < K.lanes; l++) t[l] = (m >> l) & 1 ? v[b][l] : v[a][l]; for (int l = 0; l < K.lanes; l++) v[d][l] = t[l];
      lev[d] = lev[a] > lev[b] ? lev[a] : lev[b]; op("r%d=cmv(%u,r%d,r%d)", d, m, a, b); verify(d); break; }
    default: {      // two products, optionally their sum and difference, compressed together
      if (!K.compress2) return; a = any(1); lev_ok(a); b = any(3); d = (int)s.below(R); d2 = other(d); if (d == a || d == b || d2 == a || d2 == b) return;
      bool lar = K.addsublar && s.flip(); if (lar && lev[b] > 1) { K.compress(e[b]->p()); lev[b] = 1; op("compress(r%d)", b); }
      muldisc(a, b); muldisc(b, b); K.intmul(e[d]->p(), e[a]->p(), e[b]->p()); K.intmul(e[d2]->p(), e[b]->p(), e[b]->p());
      for (int l = 0; l < K.lanes; l++) { fe x = v[a][l] * v[b][l], y = v[b][l] * v[b][l]; v[d][l] = lar ? x + y : x; v[d2][l] = lar ? x - y : y; }
      if (lar) K.addsublar(e[d]->p(), e[d2]->p());
      K.compress2(e[d]->p(), e[d2]->p()); lev[d] = lev[d2] = 1; op("r%d,r%d=compress2(%s(intmul(r%d,r%d),intmul(r%d,r%d)))", d, d2, lar ? "addsublar" : "", a, b, b, b); verify(d); verify(d2); break; }
  }
}
