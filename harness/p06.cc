#include "sig.h"
#include "huge.h"
// Ed25519 / Ed448 verification against the reference decision procedure
#ifndef ED
#define ED false
#endif
static const size_t KS = ED ? 57 : 32, SS = ED ? 114 : 64, W = ED ? 7 : 4;
typedef std::conditional<ED, ref::pt448, ref::pt25>::type PT;
typedef std::conditional<ED, ref::fe448, ref::fe25>::type FE;
static const uint64_t *LL = ED ? ref::L448 : ref::L25;
template <class P> struct T;
template <> struct T<ref::pt25> {
  static std::vector<ref::pt25> tors() { return ref::torsion25(); }
  static ref::pt25 mb(const uint64_t *k, int w) { return ref::mulbase25(k, w); }
  static void hram(uint64_t *h, int v, ref::View m, const Bytes &c, const uint8_t *R, const uint8_t *A) { ref::ed25519_hram(h, v, m, c, R, A); }
  static void muladd(uint64_t *r, const uint64_t *a, const uint64_t *b, const uint64_t *c) { ref::sc25_muladd(r, a, b, c); }
  static void lbytes(Src &s, uint8_t *b, std::string *cls) { uint64_t w[4]; gen::int256(s, w, cls); memcpy(b, w, 32); }
  static ref::fe25 d() { return ref::d25(); }
  static bool sq(ref::fe25 &r, const ref::fe25 &a) { return ref::sqrt25(r, a); }
};
template <> struct T<ref::pt448> {
  static std::vector<ref::pt448> tors() { return ref::torsion448(); }
  static ref::pt448 mb(const uint64_t *k, int w) { return ref::mulbase448(k, w); }
  static void hram(uint64_t *h, int v, ref::View m, const Bytes &c, const uint8_t *R, const uint8_t *A) { ref::ed448_hram(h, v, m, c, R, A); }
  static void muladd(uint64_t *r, const uint64_t *a, const uint64_t *b, const uint64_t *c) { ref::sc448_muladd(r, a, b, c); }
  static void lbytes(Src &s, uint8_t *b, std::string *cls) { uint64_t w[7]; gen::int448(s, w, cls); memcpy(b, w, 56); b[56] = (uint8_t)(s.below(4) ? s.below(2) * 0x80 : s.below(256)); }
  static ref::fe448 d() { return ref::d448(); }
  static bool sq(ref::fe448 &r, const ref::fe448 &a) { return ref::sqrt448(r, a); }
};
typedef T<PT> X;
static const std::vector<PT> &tors() { static std::vector<PT> t = X::tors(); return t; }

// The library multiplies an Ed448 public key by 4*(h/4 mod L) instead of h (known finding): same result unless the
// key has a component of small order.  Recomputes exactly that deviating decision.
static bool known_deviation(const Scheme &d, const Bytes &m, const Bytes &ctx, const uint8_t *pk, const uint8_t *sig, int lib_code) {
  if (!ED) return false;
  PT A; if (!ref::dec(A, pk)) return false;
  uint64_t S[8] = {0}, L8[8] = {0}; memcpy(S, sig + KS, KS); memcpy(L8, LL, W * 8); if (ref::big_cmp(S, L8, 8) >= 0) return false;
  if (ref::same(ref::mul(A, LL, W), PT{FE::zero(), FE::small(1), FE::small(1)})) return false;   // no small-order component
  uint64_t h[8] = {0}, t[8] = {0}; X::hram(h, d.variant, m, ctx, sig, pk);
  while (h[0] & 3) { memset(t, 0, sizeof t); memcpy(t, LL, W * 8); ref::big_add(h, h, t, 8); }   // h + jL == 0 mod 4
  PT Q = ref::add(X::mb(S, 8), ref::mul(ref::neg(A), h, 8));
  uint8_t e[57]; ref::enc(e, Q);
  int pred = memcmp(e, sig, KS) ? 3 : 2;
  return lib_code == pred;
}
static void judge(Ctx &c, const Scheme &d, const Bytes &m, const Bytes &ctx, uint8_t *pk, uint8_t *sig, Src *s = nullptr) {
  c.note("%s", d.name); c.hex("pk", pk, KS); c.hex("sig", sig, SS); c.hex("msg", m.data(), m.size()); c.hex("ctx", ctx.data(), ctx.size());
  ref::Verdict v = d.ref_verify(m, ctx, pk, sig);
  Buf<KS> K(s ? (unsigned)s->below(8) : 0); Buf<SS> G(s ? (unsigned)s->below(8) : 0); memcpy(K.p, pk, KS); memcpy(G.p, sig, SS);
  Msg M(m, s ? s->below(9) : 0), C(ctx, s ? s->below(9) : 0);
  int r = d.verify(M.p(), m.size(), C.p(), ctx.size(), K, G);
  c.check(!memcmp(K.p, pk, KS) && !memcmp(G.p, sig, SS) && K.intact() && G.intact() && M.same(m) && C.same(ctx), "verification modified an input or its surroundings");
  c.label(v.code == 2 ? "expected-valid" : v.key_ok ? (v.s_ok ? "expected-invalid" : "S-out-of-range") : "undecodable-key");
  bool ok;
  if (v.code == 2) ok = r == 2;
  else if (!v.key_ok && v.s_ok) ok = r == 4;                 // undecodable key, nothing else wrong with the encoding
  else if (!v.key_ok) ok = r == 4 || r == 3;                 // several defects: either error is right
  else ok = r == 3;
  if (!ok && known_deviation(d, m, ctx, pk, sig, r)) { c.label("known-finding:small-order-component"); return; }
  if (!ok) c.fail("verify returned %d, RFC 8032 decision is %d (key decodes %d, S in range %d, equation %d)", r, v.code, v.key_ok, v.s_ok, v.r_eq);
}
struct Honest { uint8_t sk[57], pk[57], sig[114]; Bytes m, ctx; const Scheme *d; };
static Honest honest(Src &s, Ctx &c, size_t maxlen = 700) {
  Honest h; h.d = &scheme(s, ED); std::string kc; gen::key(s, h.sk, KS, &kc);
  h.m = gen::message(s, gen::length(s, ED ? 136 : 128, maxlen)); if (h.d->has_ctx) h.ctx = gctx(s);
  h.d->ref_pub(h.pk, h.sk); h.d->ref_sign(h.sig, h.m, h.ctx, h.pk, h.sk); return h;
}
SUB(valid, ED ? 25000 : 100000, ED ? 1500000 : 5000000, "honest signature (must be accepted)") {
  Honest h = honest(s, c); judge(c, *h.d, h.m, h.ctx, h.pk, h.sig, &s); c.nontrivial();
}
// produced by the library itself, also accepted
SUB(own, ED ? 80000 : 500000, ED ? 2000000 : 8000000, "signature made by the library (must be accepted)") {
  const Scheme &d = scheme(s, ED); std::string kc; Buf<KS> sk, pk; Buf<SS> sig; gen::key(s, sk, KS, &kc);
  Bytes m = gen::message(s, gen::length(s, ED ? 136 : 128, 5000)), ctx = d.has_ctx ? gctx(s) : Bytes();
  c.note("%s", d.name); c.hex("sk", sk, KS); c.hex("msg", m.data(), m.size()); c.hex("ctx", ctx.data(), ctx.size());
  c.eqi("keygen", d.keygen(pk, sk), 0); c.eqi("sign", d.sign(sig, m.data(), m.size(), ctx.data(), ctx.size(), pk, sk), 1);
  c.eqi("verify", d.verify(m.data(), m.size(), ctx.data(), ctx.size(), pk, sig), 2); c.nontrivial();
}
// all the single changes of an honest tuple
static bool add_order(uint8_t *S, int k) {         // S += k*L, false if it does not fit
  uint64_t t[8] = {0}, l[8] = {0}, cy = 0; memcpy(t, S, ED ? 57 : 32); memcpy(l, LL, W * 8);
  while (k--) cy |= ref::big_add(t, t, l, ED ? 8 : 4);
  if (ED && t[7] >> 8) return false; if (cy) return false; memcpy(S, t, ED ? 57 : 32); return true;
}
SUB(mutated, ED ? 24000 : 90000, ED ? 1500000 : 4000000, "the mutated tuple differs from the honest one") {
  Honest h = honest(s, c, 300), o = h;
  switch (s.below(9)) {
    case 0: h.sig[s.below(SS)] ^= 1 << s.below(8); c.label("mut:sig-bit"); break;
    case 1: h.pk[s.below(KS)] ^= 1 << s.below(8); c.label("mut:key-bit"); break;
    case 2: if (h.m.empty()) h.m.push_back(0); else h.m[s.below(h.m.size())] ^= 1 << s.below(8); c.label("mut:msg"); break;
    case 3: if (s.flip() || h.m.empty()) h.m.push_back((uint8_t)(s.below(2) * s.below(256))); else h.m.pop_back(); c.label("mut:msg-length"); break;
    case 4: if (!h.d->has_ctx) s.discard(); if (s.flip() || h.ctx.empty()) { if (h.ctx.size() == 255) h.ctx.pop_back(); else h.ctx.push_back((uint8_t)(s.below(2) * s.below(256))); } else h.ctx[s.below(h.ctx.size())] ^= 1 << s.below(8); c.label("mut:ctx"); break;
    case 5: if (!add_order(h.sig + KS, 1 + (int)s.below(ED ? 4 : 15))) { memcpy(h.sig, o.sig, SS); add_order(h.sig + KS, 1); } c.label("mut:S+kL"); break;
    case 6: h.sig[SS - 1] = (uint8_t)(h.sig[SS - 1] ^ (1 + s.below(255))); c.label("mut:last-byte"); break;
    case 7: { const Scheme *q; do q = &SCH[(ED ? 3 : 0) + s.below(ED ? 2 : 3)]; while (q == h.d && !s.flip()); h.d = q; c.label("mut:variant"); break; }
    default: {                                      // negate R, A or S
      unsigned w = (unsigned)s.below(3);
      if (w == 0) h.sig[KS - 1] ^= 0x80; else if (w == 1) h.pk[KS - 1] ^= 0x80;
      else { uint64_t S[8] = {0}, l[8] = {0}; memcpy(S, h.sig + KS, W * 8); memcpy(l, LL, W * 8); ref::big_sub(S, l, S, W); memcpy(h.sig + KS, S, W * 8); }
      c.label("mut:negated"); break; }
  }
  c.nontrivial(memcmp(h.sig, o.sig, SS) || memcmp(h.pk, o.pk, KS) || h.m != o.m || h.ctx != o.ctx || h.d != o.d);
  judge(c, *h.d, h.m, h.ctx, h.pk, h.sig, &s);
}
// keys a*B + T and commitments r*B + T' with small-order T, T'; the scalar half solves the equation in the big subgroup
static void scalar(Src &s, uint64_t *k) {
  memset(k, 0, W * 8);
  switch (s.below(5)) {
    case 0: k[0] = s.below(40); break;
    case 1: { memcpy(k, LL, W * 8); uint64_t t[7] = {1 + s.below(40)}; ref::big_sub(k, k, t, W); break; }
    case 2: case 3: { uint8_t b[56]; gen::structured(s, b, W * 8); if (!ED) ref::sc25_reduce(k, b, 32); else ref::sc448_reduce(k, b, 56); break; }
    default: { uint8_t b[56]; s.bytes(b, W * 8); if (!ED) ref::sc25_reduce(k, b, 32); else ref::sc448_reduce(k, b, 56); }
  }
}
SUB(mixed_order, ED ? 20000 : 60000, ED ? 1000000 : 2500000, "a small-order component is present in the key or the commitment") {
  const Scheme &d = scheme(s, ED); uint64_t a[8] = {0}, r[8] = {0}, h[8] = {0}, S[8] = {0};
  scalar(s, a); scalar(s, r); size_t ta = s.below(tors().size()), tr = s.below(tors().size()); uint8_t pk[57] = {0}, sig[114] = {0};
  Bytes m = gen::message(s, s.below(64)), ctx = d.has_ctx ? gctx(s) : Bytes();
  ref::enc(pk, ref::add(X::mb(a, W), tors()[ta])); ref::enc(sig, ref::add(X::mb(r, W), tors()[tr]));
  X::hram(h, d.variant, m, ctx, sig, pk); X::muladd(S, h, a, r); memcpy(sig + KS, S, W * 8);
  c.label(ta ? "key-with-torsion" : "key-in-subgroup"); c.nontrivial(ta || tr);
  judge(c, d, m, ctx, pk, sig, &s);
}
// small-order key: the scalar half can be anything, so the base-point side meets every kind of scalar
SUB(chosen_scalar, ED ? 20000 : 80000, ED ? 1200000 : 4000000, "equation holds for the chosen scalar half (small-order key)") {
  const Scheme &d = scheme(s, ED); uint64_t S[8] = {0}, h[8]; scalar(s, S);
  size_t ta = s.below(tors().size()), tr = s.flip() ? 0 : s.below(tors().size()); uint8_t pk[57] = {0}, sig[114] = {0};
  ref::enc(pk, tors()[ta]); Bytes m = gen::message(s, s.below(64)), ctx = d.has_ctx ? gctx(s) : Bytes();
  ref::enc(sig, ref::add(X::mb(S, W), tors()[tr])); memcpy(sig + KS, S, W * 8);
  for (int i = 0; i < 16; i++) {                    // look for a message that makes the equation hold
    memset(h, 0, sizeof h); X::hram(h, d.variant, m, ctx, sig, pk); size_t n = tors().size();
    if ((tr + (h[0] % n) * ta) % n == 0) break;     // tors()[i] = i*T
    m.push_back((uint8_t)i);
  }
  if (s.chance(20)) { add_order(sig + KS, 1); c.label("S+L"); }
  c.nontrivial(d.ref_verify(m, ctx, pk, sig).r_eq);
  judge(c, d, m, ctx, pk, sig, &s);
}
// the recomputed commitment differs from the one in the signature in one bit or byte only: whichever it is, the
// tuple is refused (small-order key: the recomputed commitment is fixed before the bit is changed)
SUB(near_commitment, ED ? 20000 : 50000, ED ? 1000000 : 2500000, "recomputed commitment differs from the given one in exactly one byte") {
  const Scheme &d = scheme(s, ED); uint64_t S[8] = {0}, h[8]; scalar(s, S);
  size_t n = tors().size(), ta = s.below(n), j = s.below(n), pos = s.chance(30) ? KS - 1 : s.chance(15) ? KS - 2 : s.below(KS);
  uint8_t pk[57] = {0}, sig[114] = {0}, R0[57] = {0}; ref::enc(pk, tors()[ta]);
  Bytes m = gen::message(s, s.below(64)), ctx = d.has_ctx ? gctx(s) : Bytes();
  ref::enc(R0, ref::add(X::mb(S, W), tors()[(n - j * ta % n) % n])); memcpy(sig, R0, KS); memcpy(sig + KS, S, W * 8);
  sig[pos] ^= s.flip() ? 1 << s.below(8) : 1 + s.below(255);
  bool hit = false;
  for (int i = 0; i < 16 && !hit; i++) {            // a message for which the recomputed commitment is R0
    memset(h, 0, sizeof h); X::hram(h, d.variant, m, ctx, sig, pk);
    if (!((hit = (h[0] % n) * ta % n == j * ta % n))) m.push_back((uint8_t)i);
  }
  c.label(pos == KS - 1 ? "near:last-byte" : "near:other-byte"); c.nontrivial(hit);
  judge(c, d, m, ctx, pk, sig, &s);
}
// arbitrary and extreme key encodings
static void keybytes(Src &s, Ctx &c, uint8_t *pk) {
  std::string cls = "random"; uint64_t p[8] = {0};
  switch (s.below(6)) {
    case 0: s.bytes(pk, KS); break;
    case 1: X::lbytes(s, pk, &cls); break;
    case 2: {                                       // small-order points, canonical or not, either sign
      ref::enc(pk, tors()[s.below(tors().size())]); cls = "small-order";
      if (s.flip()) { uint64_t y[8] = {0}, q[8] = {0}; uint8_t sg = pk[KS - 1] & 0x80; memcpy(y, pk, KS); if (!ED) y[3] &= ~0ull >> 1; else y[7] = 0;
        for (int i = 0; i < (int)W; i++) q[i] = (ED ? ref::F448::P : ref::F25::P)[ED ? i : i % 4];
        ref::big_add(y, y, q, W); if (ED || !(y[3] >> 63)) { memcpy(pk, y, ED ? 56 : 32); pk[KS - 1] = (uint8_t)((ED ? 0 : pk[KS - 1] & 0x7f) | sg); cls = "small-order-noncanonical"; } }
      if (s.flip()) pk[KS - 1] ^= 0x80;
      if (ED && s.chance(20)) pk[56] ^= 1 << s.below(7);
      break; }
    case 3: {                                       // y in [p, 2^255) or [p, p+..), either sign
      cls = "noncanonical-y"; uint64_t dlt = s.below(ED ? 60000 : 19);
      memcpy(p, ED ? ref::F448::P : ref::F25::P, W * 8); gen::add_small(p, W, (int64_t)dlt); memcpy(pk, p, ED ? 56 : 32); if (ED) pk[56] = 0;
      if (s.flip()) pk[KS - 1] |= 0x80; break; }
    case 4: {                                       // y with a structured square: y^2 = V, or d*y^2 = V
      cls = "solved-y"; FE v, y; uint8_t b[56]; gen::structured(s, b, W * 8); if (s.flip()) memset(b, 0, 4); if (s.flip()) memset(b + (ED ? 28 : 0), 0, 4);
      v = FE::bytes(b); if (s.flip()) v = v * X::d().inv();
      if (!X::sq(y, v)) y = v; if (s.flip()) y = -y; memset(pk, 0, KS); y.out(pk); if (s.flip()) pk[KS - 1] |= 0x80; break; }
    default: {                                      // a point, then one bit changed
      uint8_t b[57]; cls = "point-bit-flip"; uint64_t k[8] = {0}; scalar(s, k); ref::enc(b, X::mb(k, W)); memcpy(pk, b, KS); if (s.flip()) pk[s.below(KS)] ^= 1 << s.below(8); }
  }
  c.label("key:" + cls);
}
SUB(keys, ED ? 20000 : 40000, 2000000, "the key string is not a canonical encoding, or it decodes") {
  const Scheme &d = scheme(s, ED); uint8_t pk[57] = {0}, sig[114] = {0}; uint64_t S[8] = {0};
  keybytes(s, c, pk); scalar(s, S); Bytes m = gen::message(s, s.below(20)), ctx = d.has_ctx ? gen::message(s, s.below(8)) : Bytes();
  switch (s.below(3)) { case 0: ref::enc(sig, X::mb(S, W)); break; case 1: s.bytes(sig, KS); break; default: ref::enc(sig, tors()[s.below(tors().size())]); }
  memcpy(sig + KS, S, W * 8);
  c.nontrivial(); judge(c, d, m, ctx, pk, sig, &s);
}
// arbitrary signature strings under a good key
SUB(arbitrary, ED ? 16000 : 60000, 2000000, "every signature string") {
  Honest h = honest(s, c, 40); std::string cls;
  switch (s.below(5)) {
    case 0: s.bytes(h.sig, SS); break;
    case 1: gen::structured(s, h.sig + KS, KS); break;                        // S arbitrary, above the order too
    case 2: X::lbytes(s, h.sig, &cls); break;                                 // R arbitrary
    case 3: { uint64_t t[8] = {0}; memcpy(t, LL, W * 8); gen::add_small(t, W, (int64_t)s.below(40) - 20); memcpy(h.sig + KS, t, KS < W * 8 ? KS : W * 8); if (ED) h.sig[113] = 0; break; }   // S near the order
    default: { Honest g = honest(s, c, 40); memcpy(h.sig + (s.flip() ? 0 : KS), g.sig, KS); }
  }
  c.nontrivial(); judge(c, *h.d, h.m, h.ctx, h.pk, h.sig, &s);
}
// messages of 2^29, 2^31, 2^32 bytes and more: a right signature is accepted, and neither it nor a right signature of
// the part that a length cut to 32 (or 31, or 29) bits would leave holds for the other length
SUBX(huge, ED ? 4 : 6, ED ? 48 : 72, "message of 2^29 bytes or more", 900, 0, 8) {
  unsigned nv = ED ? 2 : 3; const Scheme &d = SCH[(ED ? 3 : 0) + s.enumerate(nv)]; bool full = s.enumerate(2) == 0; unsigned cls = (unsigned)s.enumerate(3);
  static const size_t B[] = {1ull << 32, 1ull << 29, 1ull << 31}; Huge H(s, huge_len(s, cls)); size_t n = H.n, cut = n - B[cls % 3]; Bytes ctx = d.has_ctx ? gctx(s) : Bytes(); uint64_t a[8] = {0}, r[8] = {0}, h[8] = {0}, S[8] = {0}; uint8_t b[64];
  s.bulk(b, 56); if (ED) ref::sc448_reduce(a, b, 56); else ref::sc25_reduce(a, b, 56); s.bulk(b, 56); if (ED) ref::sc448_reduce(r, b, 56); else ref::sc25_reduce(r, b, 56);
  c.note("%s, %zu bytes at alignment %zu, cut %zu", d.name, n, (size_t)H.p % 64, cut); c.hex("ctx", ctx.data(), ctx.size()); c.label(huge_name(cls)); c.nontrivial();
  uint8_t pk[57] = {0}, sig[114] = {0}, shortsig[114] = {0}; ref::enc(pk, X::mb(a, W)); ref::enc(sig, X::mb(r, W)); memcpy(shortsig, sig, KS);
  if (full) {
    X::hram(h, d.variant, H.view(), ctx, sig, pk); X::muladd(S, h, a, r); memcpy(sig + KS, S, W * 8);
    c.eqi("right signature", d.verify(H.p, n, ctx.data(), ctx.size(), pk, sig), 2);
    c.eqi("right signature, length cut", d.verify(H.p, cut, ctx.data(), ctx.size(), pk, sig), 3);
  } else {
    X::hram(h, d.variant, ref::View(H.p, cut), ctx, shortsig, pk); X::muladd(S, h, a, r); memcpy(shortsig + KS, S, W * 8); c.label("signature of the cut length");
    c.eqi("signature of the cut length, cut length", d.verify(H.p, cut, ctx.data(), ctx.size(), pk, shortsig), 2);
    c.eqi("signature of the cut length, full length", d.verify(H.p, n, ctx.data(), ctx.size(), pk, shortsig), 3);
  }
}
