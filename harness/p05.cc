#include "sig.h"
#include "huge.h"
#include <thread>
// Ed25519 / Ed448 key generation and signing, byte for byte against RFC 8032
#ifndef ED
#define ED false
#endif
static const size_t KS = ED ? 57 : 32, SS = ED ? 114 : 64, BLK = ED ? 136 : 128;
static const int OKK = 0, OKS = 1;
extern "C" void modular_reduction_ed25519(uint8_t *) __attribute__((weak));
extern "C" void modular_reduction_ed448(uint8_t *) __attribute__((weak));

static bool s_small(const uint8_t *sig) {
  if (!ED) { uint64_t S[4]; memcpy(S, sig + 32, 32); return ref::big_cmp(S, ref::L25, 4) < 0; }
  uint64_t S[7]; memcpy(S, sig + 57, 56); return sig[113] == 0 && ref::big_cmp(S, ref::L448, 7) < 0;
}
SUB(keygen, ED ? 150000 : 500000, ED ? 4000000 : 12000000, "every private key") {
  std::string kc; Buf<KS> sk((unsigned)s.below(8)), pk((unsigned)s.below(8)), pk2;
  gen::key(s, sk, KS, &kc); c.label(kc); c.hex("sk", sk, KS);
  uint8_t sk0[KS], e[KS]; memcpy(sk0, sk, KS);
  const Scheme &d = scheme(s, ED);
  d.ref_pub(e, sk0);
  c.eqi("keygen status", d.keygen(pk, sk), OKK);
  c.eq("public key", pk.p, e, KS);
  c.eqi("keygen status", d.keygen(pk2, sk), OKK);
  c.eq("public key (second call)", pk2.p, e, KS);
  c.eq("private key after call", sk.p, sk0, KS);
  c.check(sk.intact() && pk.intact() && pk2.intact(), "write outside the key buffers");
  c.nontrivial();
}
static void sign(Src &s, Ctx &c, size_t maxlen) {
  const Scheme &d = scheme(s, ED);
  std::string kc; Buf<KS> sk((unsigned)s.below(8)), pk((unsigned)s.below(8)); Buf<SS> sig((unsigned)s.below(8));
  gen::key(s, sk, KS, &kc); c.label(kc); c.label(d.name);
  // lengths around the block boundary of each of the hash inputs: prefix + context + 32 (or 57, or 64, 114) bytes before the message
  Bytes ctx = d.has_ctx ? gctx(s) : Bytes();
  size_t pre = (ED ? 10 : d.has_ctx ? 34 : 0) + ctx.size(), n;
  switch (s.below(4)) {
    case 0: { size_t h = pre + KS + (s.flip() ? KS : 0); size_t k = 1 + h / BLK + s.below(3); n = k * BLK - h; long t = (long)n + (long)s.below(37) - 18; n = t < 0 ? 0 : (size_t)t; break; }
    default: n = gen::length(s, BLK, maxlen);
  }
  Bytes m = gen::message(s, n);
  Msg M(m, s.below(9)), C(ctx, s.below(9));
  c.note("%s", d.name); c.hex("sk", sk, KS); c.hex("msg", m.data(), m.size()); c.hex("ctx", ctx.data(), ctx.size());
  uint8_t sk0[KS], epk[KS], es[SS]; memcpy(sk0, sk, KS);
  d.ref_pub(epk, sk0); memcpy(pk.p, epk, KS);
  d.ref_sign(es, m, ctx, epk, sk0);
  c.eqi("sign status", d.sign(sig, M.p(), m.size(), C.p(), ctx.size(), pk, sk), OKS);
  c.eq("signature", sig.p, es, SS);
  c.check(s_small(sig.p), "S is not smaller than the group order");
  c.eq("private key after call", sk.p, sk0, KS); c.eq("public key after call", pk.p, epk, KS);
  c.check(M.same(m) && C.same(ctx), "message or context modified");
  c.check(sk.intact() && pk.intact() && sig.intact(), "write outside the buffers");
  c.label(m.size() < BLK ? "short-message" : "multi-block-message");
  c.nontrivial();
}
SUB(sign, ED ? 250000 : 1200000, ED ? 4000000 : 15000000, "every (key, message, context, variant)") { sign(s, c, 3000); }
SUB(sign_long, 400, 12000, "message longer than 32 blocks") {
  sign(s, c, 3000000); }
// every message length 0..N for every variant: no length is skipped
SUB(sign_lengths, ED ? 1200 : 1800, ED ? 4000 : 6000, "every (variant, message length) pair, enumerated") {
  unsigned nv = ED ? 2 : 3; const Scheme &d = SCH[(ED ? 3 : 0) + s.enumerate(nv)]; size_t n = s.enumerate(2000);
  uint8_t sk[KS], pk[KS], es[SS]; s.bulk(sk, KS); Bytes m(n); if (n) s.bulk(m.data(), n); Bytes ctx = d.has_ctx ? gen::message(s, s.below(256)) : Bytes();
  Buf<SS> sig; d.ref_pub(pk, sk); d.ref_sign(es, m, ctx, pk, sk);
  c.note("%s len %zu ctx %zu", d.name, n, ctx.size()); c.hex("sk", sk, KS);
  c.eqi("sign status", d.sign(sig, m.data(), n, ctx.data(), ctx.size(), pk, sk), OKS);
  c.eq("signature", sig.p, es, SS); c.nontrivial();
}
// scalar reduction: every value is brought to its canonical residue
SUB(scalar_reduction, ED ? 0 : 1500000, ED ? 0 : 30000000, "value not already below the group order") {
  const int W = ED ? 16 : 8, NB = ED ? 114 : 64, RW = ED ? 7 : 4;
  alignas(32) uint64_t x[W], y[W]; memset(x, 0, sizeof x);
  const uint64_t *L = ED ? ref::L448 : ref::L25;
  void (*f)(uint8_t *) = ED ? modular_reduction_ed448 : modular_reduction_ed25519;
  if (!f) { c.label("function-not-exported"); return; }
  unsigned kind = (unsigned)s.below(5);
  if (kind == 0) { s.bytes((uint8_t *)x, NB); c.label("random"); }
  else if (kind == 1) { gen::structured(s, (uint8_t *)x, NB); c.label("structured"); }
  else {                                         // q*L + r with chosen residue r
    uint64_t q[10] = {0}, r[W] = {0}; size_t qb = NB - (ED ? 56 : 32);
    gen::structured(s, (uint8_t *)q, kind == 2 ? s.below(qb + 1) : qb);
    switch (s.below(5)) {
      case 0: r[0] = s.below(1000); break;
      case 1: memcpy(r, L, RW * 8); { uint64_t t[7] = {s.below(1000) + 1}; ref::big_sub(r, r, t, RW); } break;
      case 2: r[ED ? 6 : 3] = ED ? 1ull << 61 : 1ull << 60; if (s.flip()) { gen::add_small(r, RW, gen::small_delta(s)); } break;
      case 3: if (!ED) { r[3] = 1ull << 60; r[1] = s.below(0x14def9dea2f79cd6); r[0] = s.u64(); } else { memcpy(r, L, 56); uint64_t t[7] = {0}; s.bytes((uint8_t *)t, s.below(29)); ref::big_sub(r, r, t, 7); } break;   // [2^252, L)
      default: s.bytes((uint8_t *)r, RW * 8); r[RW - 1] &= ED ? (1ull << 61) - 1 : (1ull << 60) - 1;
    }
    uint64_t t[20] = {0}; ref::big_mul(t, q, ED ? 8 : 4, L, RW); ref::big_add(t, t, r, RW <= 4 ? 4 : 7);
    { // proper carry: redo as full-width addition
      uint64_t rr[20] = {0}; memcpy(rr, r, RW * 8); ref::big_mul(t, q, ED ? 8 : 4, L, RW); ref::big_add(t, t, rr, ED ? 15 : 8); }
    memcpy(x, t, NB); c.label("q*L+r");
  }
  c.hex("x", x, NB); memcpy(y, x, sizeof x);
  uint64_t e[7];
  if (ED) ref::sc448_reduce(e, (uint8_t *)x, 114); else ref::sc25_reduce(e, (uint8_t *)x, 64);
  f((uint8_t *)y);
  c.eq("residue modulo the group order", y, e, RW * 8);
  uint64_t Lp[16] = {0}; memcpy(Lp, L, RW * 8); c.nontrivial(ref::big_cmp(x, Lp, ED ? 14 : 8) >= 0);
}
// message lengths past 2^29, 2^31 and 2^32 bytes for every variant
SUBX(huge, ED ? 2 : 3, ED ? 36 : 54, "message of 2^29 bytes or more", 900, 0, 8) {
  unsigned nv = ED ? 2 : 3; const Scheme &d = SCH[(ED ? 3 : 0) + s.enumerate(nv)]; unsigned cls = (unsigned)s.enumerate(3);
  Huge H(s, huge_len(s, cls)); Bytes ctx = d.has_ctx ? gctx(s) : Bytes(); uint8_t sk[KS], pk[KS], es[SS]; s.bulk(sk, KS); Buf<SS> sig;
  c.note("%s, %zu bytes at alignment %zu", d.name, H.n, (size_t)H.p % 64); c.hex("sk", sk, KS); c.hex("ctx", ctx.data(), ctx.size()); c.label(huge_name(cls)); c.nontrivial();
  d.ref_pub(pk, sk); std::thread t([&] { d.ref_sign(es, H.view(), ctx, pk, sk); });
  int r = d.sign(sig, H.p, H.n, ctx.data(), ctx.size(), pk, sk); t.join(); c.eqi("sign status", r, OKS); c.eq("signature", sig.p, es, SS); c.check(sig.intact(), "write outside the signature");
}
