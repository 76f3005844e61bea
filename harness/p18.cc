// Group law of the exported point operations on edwards25519, membership and comparison predicates
#include "lib.h"
using namespace faz::hash;
typedef ref::fe25 fe;
// exported by the library without a prototype; skipped when a later version keeps them internal
extern "C" { void _1way_doubling_1w_full(PointXYZT_1way_full *) __attribute__((weak)); void _2way_doubling(PointXYZT_2way *, const int) __attribute__((weak)); }
// a point: random or small multiple of the base point plus a point of small order; or its y chosen
static ref::pt25 point(Src &s, Ctx &c) {
  static const std::vector<ref::pt25> tor = ref::torsion25(); ref::pt25 p;
  switch (s.below(6)) {
    case 0: p = tor[s.below(8)]; c.label("small order"); break;
    case 1: { uint64_t k[4] = {s.below(40), 0, 0, 0}; p = ref::mulbase25(k, 1); c.label("small multiple"); break; }
    case 2: { uint8_t b[32]; uint64_t y = s.below(4000); memset(b, 0, 32); memcpy(b, &y, 8); if (s.flip()) { uint64_t w[4]; memcpy(w, ref::F25::P, 32); gen::add_small(w, 4, -(int64_t)(1 + y)); memcpy(b, w, 32); } if (s.flip()) b[31] |= 0x80; 
      for (int i = 0; i < 60 && !ref::dec(p, b); i++) { uint64_t w[4]; memcpy(w, b, 32); w[3] &= ~(1ull << 63); w[0] ^= 1ull << (i % 60); if (ref::big_cmp(w, ref::F25::P, 4) >= 0) memset(w, 0, 32); memcpy(b, w, 32); if (i == 59) p = tor[0]; } c.label("chosen y"); break; }
    default: { uint64_t k[4]; gen::int256(s, k); p = ref::mulbase25(k, 4); if (s.flip()) p = ref::add(p, tor[s.below(8)]); c.label("random multiple"); }
  }
  fe x, y; ref::affine(p, x, y); return ref::pt25{x, y, fe::small(1)};
}
static void rep(Src &s, uint64_t *o, const fe &v) { memcpy(o, v.v, 32); uint64_t t[4]; unsigned k = (unsigned)s.below(3); for (; k; k--) { if (ref::big_add(t, o, ref::F25::P, 4)) break; memcpy(o, t, 32); } }
static fe scaling(Src &s) { switch (s.below(5)) { case 0: return fe::small(1); case 1: return -fe::small(1 + s.below(3)); case 2: return fe::small(1 + s.below(1000)); default: { uint64_t w[4]; gen::int256(s, w); fe z = fe::words(w, 4); return z.is0() ? fe::small(1) : z; } } }
struct Ext { fe X, Y, Z, T; };
static Ext extended(Src &s, const ref::pt25 &p) { fe z = scaling(s); return Ext{p.X * z, p.Y * z, z, p.X * p.Y * z}; }
static void put(Src &s, PointXYZT_1way_full *P, const Ext &e) { rep(s, P->X, e.X); rep(s, P->Y, e.Y); rep(s, P->Z, e.Z); rep(s, P->T, e.T); }
static void expect(Ctx &c, const char *who, const fe &X, const fe &Y, const fe &Z, const fe *T, const ref::pt25 &e) {
  fe x, y; ref::affine(e, x, y); if (Z.is0()) c.fail("%s: Z of the result is zero", who);
  if (X != x * Z || Y != y * Z) c.fail("%s: the result is not the expected point", who);
  if (T && X * Y != *T * Z) c.fail("%s: the result is not a valid extended point (X*Y differs from T*Z)", who);
}
static ref::pt25 partner(Src &s, Ctx &c, const ref::pt25 &p) {
  static const std::vector<ref::pt25> tor = ref::torsion25();
  switch (s.below(5)) { case 0: c.label("equal"); return p; case 1: c.label("opposite"); return ref::neg(p); case 2: c.label("differs by small order"); { fe x, y; ref::affine(ref::add(s.flip() ? p : ref::neg(p), tor[s.below(8)]), x, y); return ref::pt25{x, y, fe::small(1)}; } default: return point(s, c); }
}
SUB(add, 300000, 15000000, "any pair of points in any scaling and representation") {
  ref::pt25 p = point(s, c), q = partner(s, c, p); PointXYZT_1way_full P, Q, Rr; memset(&Rr, 0xa5, sizeof Rr); Ext ep = extended(s, p), eq = extended(s, q); put(s, &P, ep); put(s, &Q, eq);
  c.hex("P (X,Y,Z,T)", &P, 128); c.hex("Q (X,Y,Z,T)", &Q, 128); c.nontrivial(true); ref::pt25 sum = ref::add(p, q); PointXYZT_1way_full P0 = P, Q0 = Q;
  _1way_fulladd_1w_full(&Rr, &Q, &P); expect(c, "addition", fe::words(Rr.X, 4), fe::words(Rr.Y, 4), fe::words(Rr.Z, 4), nullptr, sum);
  fe t = fe::words(Rr.T, 4); expect(c, "addition", fe::words(Rr.X, 4), fe::words(Rr.Y, 4), fe::words(Rr.Z, 4), &t, sum);
  c.eq("first operand after the addition", &Q, &Q0, sizeof Q); c.eq("second operand after the addition", &P, &P0, sizeof P);
  switch (s.below(4)) {        // chains: results are valid operands again
    case 0: { PointXYZT_1way_full S; _1way_fulladd_1w_full(&S, &Rr, &P); t = fe::words(S.T, 4); expect(c, "addition to a sum", fe::words(S.X, 4), fe::words(S.Y, 4), fe::words(S.Z, 4), &t, ref::add(sum, p)); break; }
    case 1: _1way_fulladd_1w_full(&Rr, &Rr, &Rr); t = fe::words(Rr.T, 4); expect(c, "doubling by addition in place", fe::words(Rr.X, 4), fe::words(Rr.Y, 4), fe::words(Rr.Z, 4), &t, ref::add(sum, sum)); break;
    case 2: if (!_1way_doubling_1w_full) break; _1way_doubling_1w_full(&Rr); t = fe::words(Rr.T, 4); expect(c, "doubling", fe::words(Rr.X, 4), fe::words(Rr.Y, 4), fe::words(Rr.Z, 4), &t, ref::add(sum, sum)); break;
    default: if (!_1way_doubling_1w_full) break; _1way_doubling_1w_full(&P); t = fe::words(P.T, 4); expect(c, "doubling of an operand", fe::words(P.X, 4), fe::words(P.Y, 4), fe::words(P.Z, 4), &t, ref::add(p, p)); break;
  }
}
static void lanes(argElement_2w a, fe o[2]) { uint8_t b[64]; EltFp25519_2w_redradix t; Fp25519._2w_red.arith.misc.copy(t, a); Fp25519._2w_red.arith.misc.ser(b, t); o[0] = fe::bytes(b); o[1] = fe::bytes(b + 32); }
SUB(double2, 300000, 15000000, "any pair of points, up to four doublings") {
  if (!_2way_doubling) s.discard();
  ref::pt25 p[2]; uint64_t w[4][8]; for (int l = 0; l < 2; l++) { p[l] = point(s, c); Ext e = extended(s, p[l]); rep(s, w[0] + 4 * l, e.X); rep(s, w[1] + 4 * l, e.Y); rep(s, w[2] + 4 * l, e.Z); rep(s, w[3] + 4 * l, e.T); }
  PointXYZT_2way P; argElement_2w f[4] = {P.X, P.Y, P.Z, P.T}; for (int i = 0; i < 4; i++) Fp25519._2w_red.arith.misc.unser(f[i], (uint8_t *)w[i]);
  c.hex("X0 X1", w[0], 64); c.hex("Y0 Y1", w[1], 64); c.hex("Z0 Z1", w[2], 64); c.nontrivial(true);
  unsigned n = 1 + (unsigned)s.below(4); for (unsigned i = 0; i < n; i++) { bool wt = i + 1 == n || s.flip(); _2way_doubling(&P, wt); for (int l = 0; l < 2; l++) p[l] = ref::add(p[l], p[l]);
    fe X[2], Y[2], Z[2], T[2]; lanes(P.X, X); lanes(P.Y, Y); lanes(P.Z, Z); lanes(P.T, T); for (int l = 0; l < 2; l++) expect(c, "two-way doubling", X[l], Y[l], Z[l], wt ? &T[l] : nullptr, p[l]); }
}
SUB(predicates, 600000, 30000000, "points and pairs that are nearly points, every representation") {
  ref::pt25 p = point(s, c); fe x = p.X, y = p.Y; uint64_t t[4];
  auto disturb = [&](fe &v) { switch (s.below(4)) { case 0: v = v + fe::small(1 + s.below(3)); break; case 1: v = -v; break; case 2: memcpy(t, v.v, 32); ((uint8_t *)t)[s.below(32)] ^= (uint8_t)(1 << s.below(8)); v = fe::words(t, 4); break; default: gen::int256(s, t); v = fe::words(t, 4); } };
  unsigned k = (unsigned)s.below(5); if (k == 1) disturb(x); if (k == 2) disturb(y); if (k == 3) { disturb(x); disturb(y); } if (k == 4) std::swap(x, y);
  Point P, Q; rep(s, P.X, x); rep(s, P.Y, y); c.hex("x", P.X, 32); c.hex("y", P.Y, 32); c.nontrivial(true); bool on = ref::on_curve25(x, y); c.label(on ? "on the curve" : "off the curve");
  int r = isOnCurve(&P); if (!!r != on) c.fail("membership predicate returned %d for a pair that is %s the curve", r, on ? "on" : "off");
  if (fe::words(P.X, 4) != x || fe::words(P.Y, 4) != y) c.fail("membership predicate changed the point");
  fe x2 = x, y2 = y; unsigned j = (unsigned)s.below(5); if (j == 1) disturb(x2); if (j == 2) disturb(y2); if (j == 3) { disturb(x2); disturb(y2); } if (j == 4) { ref::pt25 q = point(s, c); x2 = q.X; y2 = q.Y; }
  rep(s, P.X, x); rep(s, P.Y, y); rep(s, Q.X, x2); rep(s, Q.Y, y2); c.hex("second x", Q.X, 32); c.hex("second y", Q.Y, 32);
  bool eq = x == x2 && y == y2; c.label(eq ? "equal pair" : "different pair"); r = areEqual(&P, &Q); if (!!r != eq) c.fail("comparison returned %d for %s points", r, eq ? "equal" : "different");
  if (fe::words(P.X, 4) != x || fe::words(Q.Y, 4) != y2) c.fail("comparison changed a point");
}
