#include "lib.h"
// keygen == shared(base point) and agreement 
static void keygen(Src &s, Ctx &c, bool fast) {
  std::string kc; Buf<56> k(0), o1, o2(3);
  gen::key(s, k, 56, &kc); c.label(kc);
  uint8_t k0[56], e[56]; memcpy(k0, k, 56); c.hex("k", k0, 56);
  if (fast) ref::x448_base_ed(e, k0); else ref::x448_base(e, k0);
  X448.keygen(o1, k); c.eq("X448.keygen", o1.p, e, 56);
  X448.keygen(o2, k); c.eq("X448.keygen", o2.p, e, 56);
  uint8_t nine[56] = {5}; Buf<56> o3; if (!fast) { X448.shared(o3, nine, k); c.eq("X448.shared(5)", o3.p, e, 56); }
  c.eq("private key after call", k.p, k0, 56);
  c.check(k.intact() && o1.intact() && o2.intact(), "write outside the key buffers");
  c.nontrivial();
}
SUB(keygen, 40000, 1300000, "every key (all clamp to a nonzero multiple of 4)") { keygen(s, c, false); }
SUB(keygen_many, 300000, 10000000, "every key (all clamp to a nonzero multiple of 4)") { keygen(s, c, true); }
SUB(agreement, 12000, 300000, "the two private keys differ after clamping") {
  std::string kc; Buf<56> a, b, A, B, x, y;
  gen::key(s, a, 56, &kc); gen::key(s, b, 56, &kc);
  c.hex("a", a, 56); c.hex("b", b, 56);
  X448.keygen(A, a); X448.keygen(B, b);
  X448.shared(x, B, a); X448.shared(y, A, b);
  c.eq("shared secrets of the two parties", x.p, y.p, 56);
  c.nontrivial((a.p[0] & 0xfc) != (b.p[0] & 0xfc) || memcmp(a.p + 1, b.p + 1, 55) != 0);
}
