// Hash to curve and its element map against an independent definition
#include "lib.h"
#include "huge.h"
#include <thread>
using namespace faz::hash;
typedef ref::fe25 fe;
// field elements that make an intermediate value of the map special
static fe special_u(Src &s, std::string *cls) {
  const fe J = fe::small(486662), one = fe::small(1), half = fe::small(2).inv(); fe r, t;
  switch (s.below(6)) {
    case 0: *cls = "u zero or small"; t = fe::small(s.below(s.flip() ? 2 : 3000)); return s.flip() ? -t : t;
    case 1: { *cls = "first candidate x1 chosen"; fe x; switch (s.below(4)) { case 0: x = -one; break; case 1: x = one - J; break; case 2: x = one; break; default: x = fe::small(s.below(5000)); if (s.flip()) x = -x; if (s.flip()) x = x - J; }
      if (x.is0()) return x; t = (-J * x.inv() - one) * half; if (ref::sqrt25(r, t)) return s.flip() ? r : -r; return t; }
    case 2: *cls = "2u^2 small"; t = fe::small(s.below(5000)); if (s.flip()) t = -t; t = t * half; if (ref::sqrt25(r, t)) return r; return t;
    case 3: { *cls = "y of the result small"; // yE = (x-1)/(x+1) -> x = (1+y)/(1-y)
      fe y = fe::small(s.below(5000)); if (s.flip()) y = -y; if (y == one) return one; fe x = (one + y) * (one - y).inv(); if (s.flip()) x = -x - J; if (x.is0()) return x;
      t = (-J * x.inv() - one) * half; if (ref::sqrt25(r, t)) return s.flip() ? r : -r; return t; }
    case 4: { *cls = "near the group order"; uint64_t w[4]; memcpy(w, ref::L25, 32); gen::add_small(w, 4, gen::small_delta(s)); return fe::words(w, 4); }
    default: { *cls = "root of unity times small"; ref::sqrt25(r, -one); t = fe::small(1 + s.below(50)); return r * t; }
  }
}
static void element(Src &s, uint64_t w[4], Ctx &c) {
  std::string cls;
  if (s.below(3) == 0) { fe v = special_u(s, &cls); memcpy(w, v.v, 32); if (s.flip()) { uint64_t t[4]; if (!ref::big_add(t, w, ref::F25::P, 4)) memcpy(w, t, 32); } }
  else gen::int256(s, w, &cls);
  c.label(cls); if (ref::big_cmp(w, ref::F25::P, 4) >= 0) c.label("not below p");
}
static void checkpoint(Ctx &c, const char *who, const fe &X, const fe &Y, const fe &Z, const fe &T, const fe &u) {
  fe ex, ey; ref::elligator25(ex, ey, u);
  if (Z.is0()) c.fail("%s: Z is zero", who);
  if (X != ex * Z) c.fail("%s: x coordinate of the mapped point is wrong", who);
  if (Y != ey * Z) c.fail("%s: y coordinate of the mapped point is wrong", who);
  if (X * Y != T * Z) c.fail("%s: X*Y differs from T*Z", who);
  if (ex.is0()) c.label("exceptional image");
}
SUB(map1, 200000, 10000000, "any field element (structured, non-canonical, exceptional)") {
  alignas(32) uint64_t u[4]; element(s, u, c); c.hex("u", u, 32); c.nontrivial(true); fe v = fe::words(u, 4);
  PointXYZT_1way_full P; memset(&P, 0xa5, sizeof P); map_to_curve(&P, u);
  checkpoint(c, "map_to_curve", fe::words(P.X, 4), fe::words(P.Y, 4), fe::words(P.Z, 4), fe::words(P.T, 4), v);
  if (fe::words(u, 4) != v) c.fail("map_to_curve changed its argument");
}
static void lanes(argElement_2w a, fe o[2]) { uint8_t b[64]; EltFp25519_2w_redradix t; Fp25519._2w_red.arith.misc.copy(t, a); Fp25519._2w_red.arith.misc.ser(b, t); o[0] = fe::bytes(b); o[1] = fe::bytes(b + 32); }
SUB(map2, 200000, 10000000, "any pair of field elements (structured, non-canonical, exceptional)") {
  uint64_t w[8]; element(s, w, c); element(s, w + 4, c); c.hex("u0", w, 32); c.hex("u1", w + 4, 32); c.nontrivial(true);
  EltFp25519_2w_redradix u; Fp25519._2w_red.arith.misc.unser(u, (uint8_t *)w);
  PointXYZT_2way P; memset(&P, 0xa5, sizeof P); map_to_curve_2w(&P, u);
  fe X[2], Y[2], Z[2], T[2]; lanes(P.X, X); lanes(P.Y, Y); lanes(P.Z, Z); lanes(P.T, T);
  for (int l = 0; l < 2; l++) checkpoint(c, l ? "map_to_curve_2w lane 1" : "map_to_curve_2w lane 0", X[l], Y[l], Z[l], T[l], fe::words(w + 4 * l, 4));
}
struct Input { Bytes m; unsigned off; std::vector<uint8_t> store; uint8_t *p; };
static void input(Src &s, Ctx &c, Input &in, size_t maxlen) {
  // the hashed string is one byte longer than the message
  size_t n = gen::length(s, 128, maxlen); if (n && s.chance(30)) n--; in.m = gen::message(s, n); in.off = (unsigned)s.below(33);
  in.store.assign(n + 64, 0xc3); in.p = in.store.data() + in.off; memcpy(in.p, in.m.data(), n);
  c.note("length %zu, alignment %u", n, in.off); if (n <= 300) c.hex("message", in.m.data(), n); else c.hex("message digest", ref::sha512(in.m).data(), 64);
  c.label(n == 0 ? "empty" : n < 111 ? "one block" : n < 1000 ? "few blocks" : "many blocks");
  unsigned k = (unsigned)((n + 1) % 128); if (k >= 110 && k <= 113) c.label("length field boundary"); if (k <= 1 || k == 127) c.label("block boundary");
}
static void unchanged(Ctx &c, const Input &in) {
  c.eq("message after the call", in.p, in.m.data(), in.m.size());
  for (size_t i = 0; i < in.store.size(); i++) if (in.store.data() + i < in.p || in.store.data() + i >= in.p + in.m.size()) if (in.store[i] != 0xc3) c.fail("memory around the message was written");
}
SUB(h2c, 200000, 8000000, "any message") {
  Input in; input(s, c, in, s.chance(3) ? 100000 : 2000); c.nontrivial(true);
  fe x, y; ref::h2c25(x, y, in.m.data(), in.m.size());
  Point A, B; memset(&A, 0xa5, sizeof A); memset(&B, 0x5a, sizeof B);
  h2c25519_x64(&A, in.p, in.m.size()); unchanged(c, in); h2c25519_avx2(&B, in.p, in.m.size()); unchanged(c, in);
  if (fe::words(A.X, 4) != x || fe::words(A.Y, 4) != y) c.fail("x64 implementation: point differs from the definition\n  got      %s %s\n  expected %s %s", pbt::tohex(A.X, 32).c_str(), pbt::tohex(A.Y, 32).c_str(), pbt::tohex(x.v, 32).c_str(), pbt::tohex(y.v, 32).c_str());
  if (fe::words(B.X, 4) != x || fe::words(B.Y, 4) != y) c.fail("AVX2 implementation: point differs from the definition\n  got      %s %s\n  expected %s %s", pbt::tohex(B.X, 32).c_str(), pbt::tohex(B.Y, 32).c_str(), pbt::tohex(x.v, 32).c_str(), pbt::tohex(y.v, 32).c_str());
  if (!isOnCurve(&A) || !isOnCurve(&B)) c.fail("membership predicate refuses a hashed point");
  if (!areEqual(&A, &B)) c.fail("comparison refuses the equal points of both implementations");
}
SUB(h2f, 300000, 15000000, "any message and prefix") {
  Input in; input(s, c, in, s.chance(3) ? 100000 : 2000); c.nontrivial(true); unsigned pre = s.flip() ? (unsigned)s.below(2) : (unsigned)s.below(256);
  alignas(32) uint64_t u[3][4]; memset(u, 0xa5, sizeof u); uint64_t e[4];
  ref::h2f25(e, (uint8_t)pre, in.m.data(), in.m.size()); hash_to_field(u[0], (uint8_t)pre, in.p, in.m.size()); unchanged(c, in);
  if (fe::words(u[0], 4) != fe::words(e, 4)) c.fail("hash_to_field with prefix %u\n  got      %s\n  expected %s", pre, pbt::tohex(u[0], 32).c_str(), pbt::tohex(e, 32).c_str());
  hash_to_field_2w(u[1], u[2], in.p, in.m.size()); unchanged(c, in);
  for (int l = 0; l < 2; l++) { ref::h2f25(e, (uint8_t)l, in.m.data(), in.m.size()); if (fe::words(u[1 + l], 4) != fe::words(e, 4)) c.fail("hash_to_field_2w element %d\n  got      %s\n  expected %s", l, pbt::tohex(u[1 + l], 32).c_str(), pbt::tohex(e, 32).c_str()); }
}
// both implementations copy or stream the whole message: lengths past 2^32 and 2^31 bytes
SUBX(huge, 1, 12, "message of 2^31 bytes or more", 900, 0, 2) {
  unsigned cls = s.enumerate(2) ? 2 : 0; Huge H(s, huge_len(s, cls)); c.note("%zu bytes", H.n); c.label(huge_name(cls)); c.nontrivial();
  fe x, y; Point A, B; memset(&A, 0xa5, sizeof A); memset(&B, 0x5a, sizeof B); std::thread t([&] { ref::h2c25(x, y, H.p, H.n); });
  h2c25519_x64(&A, H.p, H.n); h2c25519_avx2(&B, H.p, H.n); t.join();
  if (fe::words(A.X, 4) != x || fe::words(A.Y, 4) != y) c.fail("x64 implementation: point differs from the definition");
  if (fe::words(B.X, 4) != x || fe::words(B.Y, 4) != y) c.fail("AVX2 implementation: point differs from the definition");
}
