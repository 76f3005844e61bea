// Uniform view of the five signature interfaces.
#pragma once
#include "lib.h"
struct Scheme {
  const char *name; int variant; bool is448; bool has_ctx;
  size_t ks() const { return is448 ? 57 : 32; }
  size_t ss() const { return is448 ? 114 : 64; }
  const SignatureSchemeCtx *cs; const SignatureSchemePure *ps;
  int keygen(uint8_t *pk, uint8_t *sk) const { return ps ? ps->keygen(pk, sk) : cs->keygen(pk, sk); }
  int sign(uint8_t *sig, const uint8_t *m, uint64_t n, const uint8_t *c, uint64_t cn, uint8_t *pk, uint8_t *sk) const {
    return ps ? ps->sign(sig, m, n, pk, sk) : cs->sign(sig, m, n, c, cn, pk, sk);
  }
  int verify(const uint8_t *m, uint64_t n, const uint8_t *c, uint64_t cn, uint8_t *pk, uint8_t *sig) const {
    return ps ? ps->verify(m, n, pk, sig) : cs->verify(m, n, c, cn, pk, sig);
  }
  void ref_pub(uint8_t *pk, const uint8_t *sk) const { is448 ? ref::ed448_pub(pk, sk) : ref::ed25519_pub(pk, sk); }
  void ref_sign(uint8_t *sig, ref::View m, const Bytes &c, const uint8_t *pk, const uint8_t *sk) const {
    is448 ? ref::ed448_sign(sig, variant, m, has_ctx ? c : Bytes(), pk, sk) : ref::ed25519_sign(sig, variant, m, has_ctx ? c : Bytes(), pk, sk);
  }
  ref::Verdict ref_verify(ref::View m, const Bytes &c, const uint8_t *pk, const uint8_t *sig) const {
    return is448 ? ref::ed448_verify(variant, m, has_ctx ? c : Bytes(), pk, sig) : ref::ed25519_verify(variant, m, has_ctx ? c : Bytes(), pk, sig);
  }
};
static const Scheme SCH[5] = {
    {"Ed25519.Pure", 0, false, false, nullptr, &Ed25519.Pure}, {"Ed25519.Context", 1, false, true, &Ed25519.Context, nullptr},
    {"Ed25519.PreHash", 2, false, true, &Ed25519.PreHash, nullptr}, {"Ed448.PureContext", 1, true, true, &Ed448.PureContext, nullptr},
    {"Ed448.PreHash", 2, true, true, &Ed448.PreHash, nullptr}};
static inline const Scheme &scheme(Src &s, bool is448) { return is448 ? SCH[3 + s.below(2)] : SCH[s.below(3)]; }
// context of 0..255 bytes
static inline Bytes gctx(Src &s) {
  size_t n;
  switch (s.below(5)) { case 0: n = 0; break; case 1: n = s.below(8); break; case 2: n = 255 - s.below(6); break; default: n = s.below(256); }
  return gen::message(s, n);
}
// byte string at a chosen alignment, followed and preceded by guard bytes
struct Msg {
  std::vector<uint8_t> raw; size_t off, n;
  Msg(const Bytes &b, size_t o) : raw(b.size() + 96 + o, 0x5b), off(48 + o), n(b.size()) { if (n) memcpy(&raw[off], b.data(), n); }
  uint8_t *p() { return &raw[off]; }
  bool same(const Bytes &b) const {
    if (n && memcmp(&raw[off], b.data(), n)) return false;
    for (size_t i = 0; i < raw.size(); i++) if ((i < off || i >= off + n) && raw[i] != 0x5b) return false;
    return true;
  }
};
