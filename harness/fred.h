// Uniform view of the reduced-radix implementations (1, 2 and 4 lanes) of both fields
#pragma once
#include "lib.h"
typedef void (*f1)(void *); typedef void (*f2)(void *, void *); typedef void (*f3)(void *, void *, void *); typedef void (*f4)(void *, void *, void *, void *);
typedef void (*fcm1)(int, void *, void *, void *); typedef void (*fcm2)(__m256i, void *, void *, void *); typedef int (*fcmp1)(void *, void *); typedef __m256i (*fcmpv)(void *, void *); typedef int (*fsg1)(void *); typedef __m256i (*fsgv)(void *);
typedef void (*fser)(uint8_t *, void *); typedef void (*funser)(void *, uint8_t *);
struct Impl {
  const char *name; int lanes; size_t bytes; int fb;      // fb: bytes of one encoded element
  f3 add, sub, mul, intmul; f1 neg, sqr, intsqr, compress, compressfast, zero; f2 copy, ngz, addsub, compress2, newfast2, addsublar, inv; f4 addsub4;
  fser ser; funser unser; fcm1 cmv1; fcm2 cmv2; fcmp1 cmp1; fcmpv cmpv; fsg1 sgn1; fsgv sgnv; f2 srt;
};
template <class F, class T> static F cast(T p) { return reinterpret_cast<F>(p); }
static inline Impl impl1(const PrimeField &P, const char *n, size_t bytes, int fb) {
  const Fp_1w_redradix &k = P._1w_red; Impl i; memset(&i, 0, sizeof i); i.name = n; i.lanes = 1; i.bytes = bytes; i.fb = fb;
  i.add = cast<f3>(k.arith.add); i.sub = cast<f3>(k.arith.sub); i.mul = cast<f3>(k.arith.mul); i.intmul = cast<f3>(k.arithex.intmul);
  i.neg = cast<f1>(k.arith.neg); i.sqr = cast<f1>(k.arith.sqr); i.compress = cast<f1>(k.arithex.compress); i.compressfast = cast<f1>(k.arithex.compressfast); i.zero = cast<f1>(k.arith.misc.zero);
  i.copy = cast<f2>(k.arith.misc.copy); i.addsub = cast<f2>(k.arithex.addsub); i.inv = cast<f2>(k.arith.inv);
  i.cmp1 = cast<fcmp1>(k.arith.cmp); i.cmv1 = cast<fcm1>(k.arith.cmv); i.sgn1 = cast<fsg1>(k.arith.sgn); i.srt = cast<f2>(k.arith.srt);
  i.ser = cast<fser>(k.arith.misc.ser); i.unser = cast<funser>(k.arith.misc.unser); return i;
}
static inline Impl impl2(const PrimeField &P, const char *n, size_t bytes, int fb) {
  const Fp_2w_redradix &k = P._2w_red; Impl i; memset(&i, 0, sizeof i); i.name = n; i.lanes = 2; i.bytes = bytes; i.fb = fb;
  i.add = cast<f3>(k.arith.add); i.sub = cast<f3>(k.arith.sub); i.mul = cast<f3>(k.arith.mul); i.intmul = cast<f3>(k.arithex.intmul);
  i.neg = cast<f1>(k.arith.neg); i.sqr = cast<f1>(k.arith.sqr); i.intsqr = cast<f1>(k.arithex.intsqr); i.compress = cast<f1>(k.arithex.compress); i.compressfast = cast<f1>(k.arithex.compressfast); i.zero = cast<f1>(k.arith.misc.zero);
  i.copy = cast<f2>(k.arith.misc.copy); i.ngz = cast<f2>(k.arith.ngz); i.addsub = cast<f2>(k.arithex.addsub); i.compress2 = cast<f2>(k.arithex.compress2);
  i.cmpv = cast<fcmpv>(k.arith.cmp); i.cmv2 = cast<fcm2>(k.arith.cmv); i.sgnv = cast<fsgv>(k.arith.sgn);
  i.ser = cast<fser>(k.arith.misc.ser); i.unser = cast<funser>(k.arith.misc.unser); return i;
}
static inline Impl impl4(const PrimeField &P, const char *n, size_t bytes, int fb) {
  const Fp_4w_redradix &k = P._4w_red; Impl i; memset(&i, 0, sizeof i); i.name = n; i.lanes = 4; i.bytes = bytes; i.fb = fb;
  i.add = cast<f3>(k.arith.add); i.sub = cast<f3>(k.arith.sub); i.mul = cast<f3>(k.arith.mul); i.intmul = cast<f3>(k.arithex.intmul);
  i.neg = cast<f1>(k.arith.neg); i.sqr = cast<f1>(k.arith.sqr); i.intsqr = cast<f1>(k.arithex.intsqr); i.compress = cast<f1>(k.arithex.compress); i.compressfast = cast<f1>(k.arithex.compressfast); i.zero = cast<f1>(k.arith.misc.zero);
  i.copy = cast<f2>(k.arith.misc.copy); i.ngz = cast<f2>(k.arith.ngz); i.addsub4 = cast<f4>(k.arithex.addsub); i.compress2 = cast<f2>(k.arithex.compress2); i.newfast2 = cast<f2>(k.arithex.new_compressfast2); i.addsublar = cast<f2>(k.arithex.addsublar);
  i.cmpv = cast<fcmpv>(k.arith.cmp); i.srt = cast<f2>(k.arith.srt);
  i.ser = cast<fser>(k.arith.misc.ser); i.unser = cast<funser>(k.arith.misc.unser); return i;
}
static inline const Impl *impls(int field, int lanes) {
  static const Impl t[2][3] = {
      {impl1(Fp25519, "Fp25519 1-way", sizeof(EltFp25519_1w_redradix), 32), impl2(Fp25519, "Fp25519 2-way", sizeof(EltFp25519_2w_redradix), 32), impl4(Fp25519, "Fp25519 4-way", sizeof(EltFp25519_4w_redradix), 32)},
      {impl1(Fp448, "Fp448 1-way", sizeof(EltFp448_1w_redradix), 56), impl2(Fp448, "Fp448 2-way", sizeof(EltFp448_2w_redradix), 56), impl4(Fp448, "Fp448 4-way", sizeof(EltFp448_4w_redradix), 56)}};
  return &t[field][lanes == 4 ? 2 : lanes - 1];
}
// one element: exactly the documented size, aligned, canaries around it
struct Elt {
  alignas(64) uint8_t raw[64 + 512 + 64]; size_t n;
  explicit Elt(size_t bytes = 512) : n(bytes) { memset(raw, 0xc3, sizeof raw); }
  void *p() { return raw + 64; }
  bool intact() const { for (int i = 0; i < 64; i++) if (raw[i] != 0xc3 || raw[64 + n + i] != 0xc3) return false; return true; }
};
