#include "lib.h"
#include "chosen.h"
// X448 shared secret == RFC 7748, inputs unchanged
static void one(Src &s, Ctx &c, bool directed) {
  Buf<56> k(directed ? (unsigned)s.below(4) * 8 : 0), u(directed ? (unsigned)s.below(33) : 0), o1, o2(directed ? (unsigned)s.below(33) : 0);
  std::string kc, uc;
  if (directed) { gen::key(s, k, 56, &kc); gen::peer448(s, u, &uc); }
  else { s.bytes(k, 56); s.bytes(u, 56); uc = "random"; kc = "key-random"; }
  uint8_t k0[56], u0[56], e[56];
  memcpy(k0, k, 56); memcpy(u0, u, 56);
  c.hex("k", k, 56); c.hex("u", u, 56);
  ref::x448(e, k0, u0);
  c.label("peer:" + uc); c.label(kc);
  bool z = true; for (uint8_t b : e) z &= b == 0;
  if (z) c.label("zero-output");
  c.nontrivial(uc != "low-order");
  X448.shared(o1, u, k);
  c.eq("X448.shared", o1.p, e, 56);
  X448.shared(o2, u, k);
  c.eq("X448.shared (second call, unaligned output)", o2.p, e, 56);
  c.eq("private key after call", k.p, k0, 56);
  c.eq("peer value after call", u.p, u0, 56);
  c.check(k.intact() && u.intact() && o1.intact() && o2.intact(), "write outside the key buffers");
}
SUB(directed, 150000, 4000000, "peer value not of small order (the result depends on the key)") { one(s, c, true); }
SUB(random, 40000, 1300000, "peer value not of small order") { one(s, c, false); }
// the result is a chosen element: small, next to p, or of a special bit pattern
SUB(chosen_result, 12000, 300000, "every case (the result is a chosen nonzero element)") {
  static const gen::Chosen448 G(ref::L448, 1); Buf<56> k((unsigned)s.below(4) * 8), u((unsigned)s.below(33)), o; std::string kc; gen::key(s, k, 56, &kc); uint64_t w[7]; memcpy(w, k, 56);
  w[0] &= ~3ull; w[6] |= 1ull << 63;
  ref::fe448 x; int side; if (!G.pick(s, x, side)) s.discard(); G.solve(x, side, w, u); uint8_t k0[56], u0[56], e[56];
  
  if (s.flip()) { uint64_t a[7], t[7]; memcpy(a, u, 56); if (!ref::big_add(t, a, ref::F448::P, 7)) memcpy(u, t, 56); }
  memcpy(k0, k, 56); memcpy(u0, u, 56); x.out(e); c.hex("k", k, 56); c.hex("u", u, 56); c.label(side ? "on the twist" : "on the curve"); c.nontrivial(true);
  uint8_t r[56]; ref::x448(r, k0, u0); if (memcmp(r, e, 56)) s.discard();
  X448.shared(o, u, k); c.eq("X448.shared", o.p, e, 56);
  c.eq("private key after call", k.p, k0, 56); c.eq("peer value after call", u.p, u0, 56); c.check(k.intact() && u.intact() && o.intact(), "write outside the key buffers");
}
