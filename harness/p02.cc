#include "lib.h"
// keygen == shared(base point) for both implementations; agreement in all pairings
static void keygen(Src &s, Ctx &c, bool fast) {
  std::string kc; Buf<32> k(0), o1, o2;
  gen::key(s, k, 32, &kc); c.label(kc);
  uint8_t k0[32], e[32]; memcpy(k0, k, 32); c.hex("k", k0, 32);
  if (fast) ref::x25519_base_ed(e, k0); else ref::x25519_base(e, k0);
  X25519.keygen(o1, k); c.eq("X25519.keygen", o1.p, e, 32);
  X25519_x64.keygen(o2, k); c.eq("X25519_x64.keygen", o2.p, e, 32);
  uint8_t nine[32] = {9}; Buf<32> o3; if (!fast) { X25519.shared(o3, nine, k); c.eq("X25519.shared(9)", o3.p, e, 32); X25519_x64.shared(o3, nine, k); c.eq("X25519_x64.shared(9)", o3.p, e, 32); }
  c.eq("private key after call", k.p, k0, 32);
  c.check(k.intact() && o1.intact() && o2.intact(), "write outside the key buffers");
  c.nontrivial();
}
SUB(keygen, 70000, 2500000, "every key (all clamp to a nonzero multiple of 8)") { keygen(s, c, false); }
SUB(keygen_many, 1000000, 30000000, "every key (all clamp to a nonzero multiple of 8)") { keygen(s, c, true); }
SUB(agreement, 8000, 300000, "the two private keys differ after clamping") {
  const X_ECDH *impl[2] = {&X25519, &X25519_x64};
  unsigned i = (unsigned)s.enumerate(2), j = (unsigned)s.enumerate(2), i2 = (unsigned)s.enumerate(2), j2 = (unsigned)s.enumerate(2);
  std::string kc; Buf<32> a, b, A, B, x, y;
  gen::key(s, a, 32, &kc); gen::key(s, b, 32, &kc);
  c.hex("a", a, 32); c.hex("b", b, 32); c.note("implementations %u%u%u%u", i, j, i2, j2);
  impl[i]->keygen(A, a); impl[j]->keygen(B, b);
  impl[i2]->shared(x, B, a); impl[j2]->shared(y, A, b);
  c.eq("shared secrets of the two parties", x.p, y.p, 32);
  c.nontrivial(memcmp(a.p, b.p, 32) != 0);
  bool z = true; for (int q = 0; q < 32; q++) z &= x.p[q] == 0;
  c.check(!z, "shared secret of two honest parties is zero");
}
