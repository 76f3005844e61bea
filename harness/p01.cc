#include "lib.h"
#include "chosen.h"
// X25519 shared secret == RFC 7748, AVX2 == x64, inputs unchanged
static void one(Src &s, Ctx &c, bool directed) {
  Buf<32> k(directed ? (unsigned)s.below(4) * 8 : 0), u(directed ? (unsigned)s.below(33) : 0), o1, o2(directed ? (unsigned)s.below(33) : 0);
  std::string kc, uc;
  if (directed) { gen::key(s, k, 32, &kc); gen::peer25519(s, u, &uc); }
  else { s.bytes(k, 32); s.bytes(u, 32); uc = "random"; kc = "key-random"; }
  uint8_t k0[32], u0[32], e[32];
  memcpy(k0, k, 32); memcpy(u0, u, 32);
  c.hex("k", k, 32); c.hex("u", u, 32);
  ref::x25519(e, k0, u0);
  c.label("peer:" + uc); c.label(kc);
  bool z = true; for (uint8_t b : e) z &= b == 0;
  if (z) c.label("zero-output");
  c.nontrivial(uc != "low-order");
  X25519.shared(o1, u, k);
  c.eq("X25519.shared", o1.p, e, 32);
  X25519_x64.shared(o2, u, k);
  c.eq("X25519_x64.shared", o2.p, e, 32);
  c.eq("private key after call", k.p, k0, 32);
  c.eq("peer value after call", u.p, u0, 32);
  c.check(k.intact() && u.intact() && o1.intact() && o2.intact(), "write outside the key buffers");
}
SUB(directed, 350000, 8000000, "peer value not of small order (the result depends on the key)") { one(s, c, true); }
SUB(random, 80000, 2500000, "peer value not of small order") { one(s, c, false); }
// the result is a chosen element: small, next to p, or of a special bit pattern
SUB(chosen_result, 30000, 900000, "every case (the result is a chosen nonzero element)") {
  static const gen::Chosen25519 G(ref::L25, 2); Buf<32> k((unsigned)s.below(4) * 8), u((unsigned)s.below(33)), o; std::string kc; gen::key(s, k, 32, &kc); uint64_t w[4]; memcpy(w, k, 32);
  w[0] &= ~7ull; w[3] = (w[3] & ~(1ull << 63)) | 1ull << 62;
  ref::fe25 x; int side; if (!G.pick(s, x, side)) s.discard(); G.solve(x, side, w, u); uint8_t k0[32], u0[32], e[32];
  if (s.flip()) u.p[31] |= 0x80;
  if (s.flip()) { uint64_t a[4], t[4]; memcpy(a, u, 32); a[3] &= ~(1ull << 63); if (!ref::big_add(t, a, ref::F25::P, 4) && !(t[3] >> 63)) memcpy(u, t, 32); }
  memcpy(k0, k, 32); memcpy(u0, u, 32); x.out(e); c.hex("k", k, 32); c.hex("u", u, 32); c.label(side ? "on the twist" : "on the curve"); c.nontrivial(true);
  uint8_t r[32]; ref::x25519(r, k0, u0); if (memcmp(r, e, 32)) s.discard();
  X25519.shared(o, u, k); c.eq("X25519.shared", o.p, e, 32); X25519_x64.shared(o, u, k); c.eq("X25519_x64.shared", o.p, e, 32);
  c.eq("private key after call", k.p, k0, 32); c.eq("peer value after call", u.p, u0, 32); c.check(k.intact() && u.intact() && o.intact(), "write outside the key buffers");
}
