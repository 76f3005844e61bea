// Generators of single calls of every part of the interface, with the role and size of every buffer
#pragma once
#include "hash.h"
#include "fred.h"
#include "sig.h"
#include "fgen.h"
#include <functional>
#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
using namespace faz::hash;
enum Role { IN, OUT, IO };
struct Arg { Role role; size_t n, align; Bytes init; size_t cmp; int kind = 0; std::function<Bytes(const uint8_t *)> residues; };      // cmp: bytes of an output that are compared; kind: 1, 2 residues mod 2^255-19, 2^448-2^224-1
struct Call { std::string name; std::vector<Arg> a; std::function<long long(uint8_t *const *)> f; bool may_refuse = false; };
static Arg in(const Bytes &b, size_t align = 1) { return Arg{IN, b.size(), align, b, 0}; }
static Arg out(size_t n, size_t align = 1) { return Arg{OUT, n, align, Bytes(), n}; }
static Arg io(const Bytes &b, size_t align = 1) { return Arg{IO, b.size(), align, b, b.size()}; }
__attribute__((noinline)) static void stack_junk(uint8_t v) { volatile uint8_t a[48 * 1024]; memset((void *)a, v, sizeof a); asm volatile("" ::"r"(a) : "memory"); }
__attribute__((noinline)) static void register_junk(uint64_t v) {
  __m256i x = _mm256_set1_epi64x((long long)v);
  asm volatile("vmovdqa %0,%%ymm0;vmovdqa %%ymm0,%%ymm1;vmovdqa %%ymm0,%%ymm2;vmovdqa %%ymm0,%%ymm3;vmovdqa %%ymm0,%%ymm4;vmovdqa %%ymm0,%%ymm5;vmovdqa %%ymm0,%%ymm6;vmovdqa %%ymm0,%%ymm7;vmovdqa %%ymm0,%%ymm8;vmovdqa %%ymm0,%%ymm9;vmovdqa %%ymm0,%%ymm10;vmovdqa %%ymm0,%%ymm11;vmovdqa %%ymm0,%%ymm12;vmovdqa %%ymm0,%%ymm13;vmovdqa %%ymm0,%%ymm14;vmovdqa %%ymm0,%%ymm15" ::"m"(x)
               : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}
static long long invoke(const Call &k, uint8_t *const *p, uint8_t junk) { stack_junk(junk); register_junk(0x0101010101010101ull * junk); return k.f(p); }
typedef std::function<void(const Call &)> Sink;
static Bytes rb(Src &s, size_t n) { Bytes b(n); if (s.below(3)) gen::structured(s, b.data(), n); else s.bytes(b.data(), n); return b; }
static Bytes msg(Src &s, size_t block, size_t maxn = 3000) { return gen::message(s, gen::length(s, block, maxn)); }
static void call_agreement(Src &s, const Sink &run) {
  const X_ECDH *x[] = {&X25519, &X25519_x64, &X448}; static const char *nm[] = {"X25519", "X25519_x64", "X448"}; unsigned i = (unsigned)s.below(3); size_t n = i == 2 ? 56 : 32; const X_ECDH *X = x[i];
  Bytes k = rb(s, n), u(n); std::string cls; if (i == 2) gen::peer448(s, u.data(), &cls); else gen::peer25519(s, u.data(), &cls);
  if (s.flip()) run(Call{std::string(nm[i]) + ".shared", {out(n), in(u), in(k)}, [=](uint8_t *const *p) -> long long { return X->shared(p[0], p[1], p[2]); }});
  else run(Call{std::string(nm[i]) + ".keygen", {out(n), in(k)}, [=](uint8_t *const *p) -> long long { return X->keygen(p[0], p[1]); }});
}
static void call_signatures(Src &s, const Sink &run) {
  unsigned i = (unsigned)s.below(5); const Scheme *S = &SCH[i]; Bytes sk = rb(s, S->ks()), pk(S->ks()), sg(S->ss()), m = msg(s, S->is448 ? 136 : 128), cx = s.chance(10) ? gen::message(s, 256 + s.below(300)) : gctx(s); if (!S->has_ctx) cx.clear();
  unsigned o = (unsigned)s.below(6); std::string nm = S->name; size_t mn = m.size(), cn = cx.size(); bool nul = s.flip();
  if (o == 0) { run(Call{nm + ".keygen", {out(S->ks()), in(sk)}, [=](uint8_t *const *p) -> long long { return S->keygen(p[0], p[1]); }}); return; }
  S->keygen(pk.data(), sk.data());
  if (o <= 2) { Call k{nm + ".sign", {out(S->ss()), in(m), in(cx), in(pk), in(sk)}, [=](uint8_t *const *p) -> long long { return S->sign(p[0], nul && !mn ? nullptr : p[1], mn, nul && !cn ? nullptr : p[2], cn, p[3], p[4]); }}; k.may_refuse = true; run(k); return; }
  if (cn > 255) S->sign(sg.data(), m.data(), mn, cx.data(), 255, pk.data(), sk.data()); else S->sign(sg.data(), m.data(), mn, cx.data(), cn, pk.data(), sk.data());
  if (o == 4) sg[s.below(sg.size())] ^= (uint8_t)(1 << s.below(8)); if (o == 5) { if (s.flip()) pk[s.below(pk.size())] ^= (uint8_t)(1 << s.below(8)); else pk = rb(s, S->ks()); if (s.flip()) sg = rb(s, S->ss()); }
  run(Call{nm + ".verify", {in(m), in(cx), in(pk), in(sg)}, [=](uint8_t *const *p) -> long long { return S->verify(nul && !mn ? nullptr : p[0], mn, nul && !cn ? nullptr : p[1], cn, p[2], p[3]); }});
}
static void call_hashes(Src &s, const Sink &run) {
  unsigned o = (unsigned)s.below(10); Bytes m = msg(s, o >= 5 ? 136 : 128), m2(m.size()); s.bulk(m2.data(), m2.size()); size_t n = m.size(), cut = s.below(n + 1);
  switch (o) {
    case 0: run(Call{"sph_sha512", {in(m), out(64)}, [=](uint8_t *const *p) -> long long { sph_sha512_context h; sph_sha512_init(&h); sph_sha512(&h, p[0], cut); sph_sha512(&h, p[0] + cut, n - cut); sph_sha512_close(&h, p[1]); return 0; }}); break;
    case 1: run(Call{"sph_sha384", {in(m), out(48)}, [=](uint8_t *const *p) -> long long { sph_sha384_context h; sph_sha384_init(&h); sph_sha384(&h, p[0], cut); sph_sha384(&h, p[0] + cut, n - cut); sph_sha384_close(&h, p[1]); return 0; }}); break;
    case 2: case 3: run(Call{"sha512_2w_avx", {in(m), in(m2), out(64), out(64)}, [=](uint8_t *const *p) -> long long { uint8_t *a[2] = {p[0], p[1]}, *d[2] = {p[2], p[3]}; sha512_2w_avx(a, n, d); return 0; }}); break;
    case 4: { if (!sha512_2w_avx_256b) s.discard(); Bytes a = rb(s, 32), b = rb(s, 32); run(Call{"sha512_2w_avx_256b", {in(a), in(b), out(64), out(64)}, [=](uint8_t *const *p) -> long long { uint8_t *x[2] = {p[0], p[1]}, *d[2] = {p[2], p[3]}; sha512_2w_avx_256b(x, d); return 0; }}); break; }
    case 5: case 6: { size_t on = s.below(s.flip() ? 80 : 500); bool b = s.flip(); run(Call{b ? "SHAKE256" : "SHAKE128", {in(m), out(on)}, [=](uint8_t *const *p) -> long long { return (b ? SHAKE256 : SHAKE128)(p[0], (DataLength)n * 8, p[1], (unsigned)on); }}); break; }
    case 7: { size_t on = s.below(s.flip() ? 80 : 500); bool b = s.flip(); run(Call{"incremental SHAKE", {in(m), out(on)}, [=](uint8_t *const *p) -> long long { hashState h; Init(&h, b ? 256 : 128); Update(&h, p[0], (DataLength)cut * 8); Update(&h, p[0] + cut, (DataLength)(n - cut) * 8); return Final2(&h, p[1], (unsigned)on); }}); break; }
    case 8: { static const int B[] = {224, 256, 384, 512}; int b = B[s.below(4)]; run(Call{"SHA-3 Hash", {in(m), out(b / 8)}, [=](uint8_t *const *p) -> long long { return Hash(b, p[0], (DataLength)n * 8, p[1]); }}); break; }
    default: { static const int B[] = {224, 256, 384, 512}; int b = B[s.below(4)]; run(Call{"incremental SHA-3", {in(m), out(b / 8)}, [=](uint8_t *const *p) -> long long { hashState h; Init(&h, b); Update(&h, p[0], (DataLength)cut * 8); Update(&h, p[0] + cut, (DataLength)(n - cut) * 8); return Final(&h, p[1]); }}); }
  }
}
static Bytes words(const void *p, size_t n) { return Bytes((const uint8_t *)p, (const uint8_t *)p + n); }
static Arg res(size_t n) { Arg a = out(n, 32); a.kind = 1; return a; }
static void call_curve(Src &s, const Sink &run) {
  unsigned o = (unsigned)s.below(9); Bytes m = msg(s, 128); size_t n = m.size(); Bytes u(32), v(32); gen::int256(s, (uint64_t *)u.data()); gen::int256(s, (uint64_t *)v.data());
  switch (o) {
    case 0: run(Call{"h2c25519_x64", {res(64), in(m)}, [=](uint8_t *const *p) -> long long { h2c25519_x64((Point *)p[0], p[1], n); return 0; }}); break;
    case 1: case 2: run(Call{"h2c25519_avx2", {res(64), in(m)}, [=](uint8_t *const *p) -> long long { h2c25519_avx2((Point *)p[0], p[1], n); return 0; }}); break;
    case 3: { int pre = (int)s.below(256); run(Call{"hash_to_field", {res(32), in(m)}, [=](uint8_t *const *p) -> long long { hash_to_field((argElement_1w)p[0], (uint8_t)pre, p[1], n); return 0; }}); break; }
    case 4: run(Call{"hash_to_field_2w", {res(32), res(32), in(m)}, [=](uint8_t *const *p) -> long long { hash_to_field_2w((argElement_1w)p[0], (argElement_1w)p[1], p[2], n); return 0; }}); break;
    case 5: run(Call{"map_to_curve", {res(sizeof(PointXYZT_1way_full)), in(u, 32)}, [=](uint8_t *const *p) -> long long { map_to_curve((PointXYZT_1way_full *)p[0], (argElement_1w)p[1]); return 0; }}); break;
    case 6: { alignas(32) uint8_t b[64]; memcpy(b, u.data(), 32); memcpy(b + 32, v.data(), 32); EltFp25519_2w_redradix e; Fp25519._2w_red.arith.misc.unser(e, b); run(Call{"map_to_curve_2w", {out(sizeof(PointXYZT_2way), 32), in(words(e, sizeof e), 32)}, [=](uint8_t *const *p) -> long long { map_to_curve_2w((PointXYZT_2way *)p[0], (argElement_2w)p[1]); return 0; }}); break; }
    case 7: { PointXYZT_1way_full P, Q; alignas(32) uint64_t w[4]; memcpy(w, u.data(), 32); map_to_curve(&P, w); memcpy(w, v.data(), 32); map_to_curve(&Q, w); run(Call{"point addition", {res(sizeof P), in(words(&P, sizeof P), 32), in(words(&Q, sizeof Q), 32)}, [=](uint8_t *const *p) -> long long { _1way_fulladd_1w_full((PointXYZT_1way_full *)p[0], (PointXYZT_1way_full *)p[1], (PointXYZT_1way_full *)p[2]); return 0; }}); break; }
    default: { Bytes a(64), b; memcpy(&a[0], u.data(), 32); memcpy(&a[32], v.data(), 32); b = a; if (s.flip()) b[s.below(64)] ^= 1; if (s.flip()) run(Call{"isOnCurve", {in(a, 32)}, [=](uint8_t *const *p) -> long long { return isOnCurve((Point *)p[0]) != 0; }}); else run(Call{"areEqual", {in(a, 32), in(b, 32)}, [=](uint8_t *const *p) -> long long { return areEqual((Point *)p[0], (Point *)p[1]) != 0; }}); }
  }
}
// elements of the reduced-radix representations, as parsing or one subtraction leaves them
static Bytes element(Src &s, const Impl &I, int field, bool diff) {
  alignas(32) uint8_t b[4 * 56]; Elt e(I.bytes), f(I.bytes); memset(e.p(), 0, I.bytes); memset(f.p(), 0, I.bytes);
  for (int l = 0; l < I.lanes; l++) { uint64_t w[7]; if (field) gen::int448(s, w); else gen::int256(s, w); memcpy(b + l * I.fb, w, I.fb); } I.unser(e.p(), b);
  if (diff) { s.bulk(b, I.lanes * I.fb); I.unser(f.p(), b); I.sub(e.p(), e.p(), f.p()); }
  return words(e.p(), I.bytes);
}
static void call_reduced(Src &s, const Sink &run) {
  int field = (int)s.below(2), lanes = 1 << s.below(3); const Impl &I = *impls(field, lanes); std::string nm = std::string(I.name) + " "; size_t E = I.bytes, B = (size_t)I.fb * lanes; const Impl *K = &I; bool d = s.flip();
  size_t used = field == 0 && lanes == 1 ? 80 : E;       // the last two words of the one-way element are padding
  auto val = [=](const uint8_t *p) { Elt t(E); memcpy(t.p(), p, E); Elt u(E); memset(u.p(), 0, E); K->copy(u.p(), t.p()); Bytes b(B); K->ser(b.data(), u.p()); return b; };
  auto elt = [&](bool diff) { return in(element(s, I, field, diff), 32); }; auto eio = [&](bool diff) { Arg a = io(element(s, I, field, diff), 32); a.cmp = used; a.residues = val; return a; }; auto eout = [&] { Arg a = out(E, 32); a.cmp = used; a.residues = val; return a; };
  auto three = [&](const char *n, f3 f, bool diff) { run(Call{nm + n, {eout(), elt(diff), elt(false)}, [=](uint8_t *const *p) -> long long { f(p[0], p[1], p[2]); return 0; }}); };
  auto one = [&](const char *n, f1 f, bool diff) { run(Call{nm + n, {eio(diff)}, [=](uint8_t *const *p) -> long long { f(p[0]); return 0; }}); };
  auto two = [&](const char *n, f2 f) { run(Call{nm + n, {eio(false), eio(false)}, [=](uint8_t *const *p) -> long long { f(p[0], p[1]); return 0; }}); };
  switch (s.below(23)) {
    case 0: three("add", I.add, false); break; case 1: three("sub", I.sub, false); break; case 2: three("mul", I.mul, d); break; case 3: three("intmul", I.intmul, d); break;
    case 4: if (!I.neg) s.discard(); one("neg", I.neg, false); break; case 5: one("sqr", I.sqr, false); break; case 6: if (!I.intsqr) s.discard(); one("intsqr", I.intsqr, false); break; case 7: one("compress", I.compress, d); break; case 8: one("compressfast", I.compressfast, d); break; case 9: { Arg z = out(E, 32); f1 f = I.zero; run(Call{nm + "zero", {z}, [=](uint8_t *const *p) -> long long { f(p[0]); return 0; }}); break; }
    case 10: { f2 f = I.copy; run(Call{nm + "copy", {out(E, 32), in(element(s, I, field, d), 32)}, [=](uint8_t *const *p) -> long long { f(p[0], p[1]); return 0; }}); break; }
    case 11: if (!I.ngz) s.discard(); { f2 f = I.ngz; run(Call{nm + "ngz", {eout(), elt(false)}, [=](uint8_t *const *p) -> long long { f(p[0], p[1]); return 0; }}); } break;
    case 12: if (I.addsub4) { f4 f = I.addsub4; run(Call{nm + "addsub", {eout(), eout(), elt(false), elt(false)}, [=](uint8_t *const *p) -> long long { f(p[0], p[1], p[2], p[3]); return 0; }}); } else two("addsub", I.addsub); break;
    case 13: if (!I.compress2) s.discard(); two("compress2", I.compress2); break;
    case 14: if (!I.newfast2) s.discard(); two("new_compressfast2", I.newfast2); break;
    case 15: if (!I.inv) s.discard(); { f2 f = I.inv; run(Call{nm + "inv", {eout(), elt(false)}, [=](uint8_t *const *p) -> long long { f(p[0], p[1]); return 0; }}); } break;
    case 16: run(Call{nm + "ser", {out(B), elt(d)}, [=](uint8_t *const *p) -> long long { K->ser(p[0], p[1]); return 0; }}); break;
    case 17: { Bytes b(B); s.bytes(b.data(), B); run(Call{nm + "unser", {eout(), in(b)}, [=](uint8_t *const *p) -> long long { K->unser(p[0], p[1]); return 0; }}); break; }
    case 18: { Bytes a = element(s, I, field, d), b = s.flip() ? a : element(s, I, field, false); run(Call{nm + "cmp", {in(a, 32), in(b, 32)}, [=](uint8_t *const *p) -> long long { if (K->cmp1) return K->cmp1(p[0], p[1]) != 0; long long w[4], r = 0; _mm256_storeu_si256((__m256i *)w, K->cmpv(p[0], p[1])); for (int l = 0; l < 4; l++) r |= (long long)(w[l] != 0) << l; return r; }}); break; }
    case 19: if (I.sgn1) run(Call{nm + "sgn", {elt(d)}, [=](uint8_t *const *p) -> long long { return K->sgn1(p[0]); }}); else if (I.sgnv) run(Call{nm + "sgn", {elt(d)}, [=](uint8_t *const *p) -> long long { long long w[4]; _mm256_storeu_si256((__m256i *)w, K->sgnv(p[0])); return w[0] + 2 * w[2]; }}); else s.discard(); break;
    case 20: { int m = (int)s.below(1u << lanes); if (!I.cmv1 && !I.cmv2) s.discard(); Arg z = eout(); run(Call{nm + "cmv", {z, elt(d), elt(false)}, [=](uint8_t *const *p) -> long long { if (K->cmv1) K->cmv1(m, p[0], p[1], p[2]); else K->cmv2(_mm256_set_epi64x(0, m >> 1, 0, m & 1), p[0], p[1], p[2]); return 0; }}); break; }
    case 21: { if (!I.srt) s.discard(); Arg z = eio(false); run(Call{nm + "srt", {z, elt(false)}, [=](uint8_t *const *p) -> long long { K->srt(p[0], p[1]); return 0; }}); break; }
    default: {
      if (lanes != 2) s.discard(); const Impl &I1 = *impls(field, 1); size_t E1 = I1.bytes; auto &X = field ? Fp448._2w_red.arithex : Fp25519._2w_red.arithex;
      if (s.flip()) { auto f = X.inter; Arg a = in(element(s, I1, field, d), 32), b = in(element(s, I1, field, false), 32); run(Call{nm + "inter", {out(E, 32), a, b}, [=](uint8_t *const *p) -> long long { f((__m256i *)p[0], (uint64_t *)p[1], (uint64_t *)p[2]); return 0; }}); }
      else { auto f = X.deinter; Arg a = out(E1, 32), b = out(E1, 32); a.cmp = b.cmp = field ? E1 : 80; run(Call{nm + "deinter", {a, b, elt(d)}, [=](uint8_t *const *p) -> long long { f((uint64_t *)p[0], (uint64_t *)p[1], (__m256i *)p[2]); return 0; }}); }
    }
  }
}
static void call_full(Src &s, const Sink &run) {
  int field = (int)s.below(2); const Fp_1w_fullradix *F = field ? &Fp448._1w_full : &Fp25519._1w_full; size_t n = field ? 56 : 32; std::string nm = field ? "Fp448 full radix " : "Fp25519 full radix ";
  auto val = [&](size_t k) { Bytes b(k); for (size_t i = 0; i < k; i += n) { uint64_t w[7]; if (field) gen::int448(s, w); else gen::int256(s, w); memcpy(&b[i], w, n); } return b; };
  typedef uint64_t *W; auto e = [&](size_t k = 1) { return in(val(k * n), 32); }; auto o = [&](size_t k = 1) { Arg a = out(k * n, 32); if (k == 1) a.kind = field + 1; return a; }; auto ioe = [&] { Arg a = io(val(n), 32); a.kind = field + 1; return a; };
  auto pair = [&](Arg &x, Arg &y) { uint64_t a[7], b[7]; bool sv; if (field) { gen::int448(s, a); FullGen<ref::F448>::partner(s, a, b, sv); } else { gen::int256(s, a); FullGen<ref::F25>::partner(s, a, b, sv); } if (s.flip()) std::swap_ranges(a, a + n / 8, b); x = in(words(a, n), 32); y = in(words(b, n), 32); };
  auto wide = [&](size_t k) { Bytes r; while (k--) { uint64_t w[14]; bool d; if (field) FullGen<ref::F448>::wide(s, w, d); else FullGen<ref::F25>::wide(s, w, d); Bytes x = words(w, 2 * n); r.insert(r.end(), x.begin(), x.end()); } return r; };
  auto near24 = [&] { uint64_t w[7]; if (field) FullGen<ref::F448>::near24(s, w); else FullGen<ref::F25>::near24(s, w); return in(words(w, n), 32); };
  switch (s.below(24)) {
    case 0: case 21: { Arg x, y; pair(x, y); run(Call{nm + "add", {o(), x, y}, [=](uint8_t *const *p) -> long long { F->arith.add((W)p[0], (W)p[1], (W)p[2]); return 0; }}); break; }
    case 1: case 22: { Arg x, y; pair(x, y); run(Call{nm + "sub", {o(), x, y}, [=](uint8_t *const *p) -> long long { F->arith.sub((W)p[0], (W)p[1], (W)p[2]); return 0; }}); break; }
    case 2: run(Call{nm + "mul", {o(), e(), e()}, [=](uint8_t *const *p) -> long long { F->arith.mul((W)p[0], (W)p[1], (W)p[2]); return 0; }}); break;
    case 3: run(Call{nm + "sqr", {ioe()}, [=](uint8_t *const *p) -> long long { F->arith.sqr((W)p[0]); return 0; }}); break;
    case 4: run(Call{nm + "neg", {ioe()}, [=](uint8_t *const *p) -> long long { F->arith.neg((W)p[0]); return 0; }}); break;
    case 5: run(Call{nm + "inv", {o(), e()}, [=](uint8_t *const *p) -> long long { F->arith.inv((W)p[0], (W)p[1]); return 0; }}); break;
    case 6: if (!F->arith.srt) s.discard(); run(Call{nm + "srt", {ioe(), e()}, [=](uint8_t *const *p) -> long long { F->arith.srt((W)p[0], (W)p[1]); return 0; }}); break;
    case 7: { int b = (int)s.below(2); run(Call{nm + "cmv", {o(), e(), e()}, [=](uint8_t *const *p) -> long long { F->arith.cmv(b, (W)p[0], (W)p[1], (W)p[2]); return 0; }}); break; }
    case 8: { Arg a = e(), b = s.flip() ? a : e(); run(Call{nm + "cmp", {a, b}, [=](uint8_t *const *p) -> long long { return F->arith.cmp((W)p[0], (W)p[1]) != 0; }}); break; }
    case 9: if (!F->arith.sgn) s.discard(); run(Call{nm + "sgn", {e()}, [=](uint8_t *const *p) -> long long { return F->arith.sgn((W)p[0]); }}); break;
    case 10: run(Call{nm + "prime", {o()}, [=](uint8_t *const *p) -> long long { F->arith.prime((W)p[0]); return 0; }}); break;
    case 11: run(Call{nm + "zero", {o()}, [=](uint8_t *const *p) -> long long { F->arith.misc.zero((W)p[0]); return 0; }}); break;
    case 12: run(Call{nm + "copy", {o(), e()}, [=](uint8_t *const *p) -> long long { F->arith.misc.copy((W)p[0], (W)p[1]); return 0; }}); break;
    case 13: run(Call{nm + "ser", {out(n), e()}, [=](uint8_t *const *p) -> long long { F->arith.misc.ser(p[0], (W)p[1]); return 0; }}); break;
    case 14: run(Call{nm + "unser", {o(), in(val(n))}, [=](uint8_t *const *p) -> long long { F->arith.misc.unser((W)p[0], p[1]); return 0; }}); break;
    case 15: run(Call{nm + "intmul", {o(2), e(), e()}, [=](uint8_t *const *p) -> long long { F->arithex.intmul((W)p[0], (W)p[1], (W)p[2]); return 0; }}); break;
    case 16: run(Call{nm + "intsqr", {o(2), e()}, [=](uint8_t *const *p) -> long long { F->arithex.intsqr((W)p[0], (W)p[1]); return 0; }}); break;
    case 17: case 23: if (s.flip()) run(Call{nm + "reduce", {o(), in(wide(1), 32)}, [=](uint8_t *const *p) -> long long { alignas(32) uint64_t t[14]; memcpy(t, p[1], 2 * n); F->arithex.reduce((W)p[0], t); return 0; }}); else { Arg r = o(2); r.kind = field + 1; run(Call{nm + "reduce2", {r, in(wide(2), 32)}, [=](uint8_t *const *p) -> long long { alignas(32) uint64_t t[28]; memcpy(t, p[1], 4 * n); F->arithex.reduce2((W)p[0], t); return 0; }}); } break;
    case 18: run(Call{nm + "mula24", {o(), s.flip() ? near24() : e()}, [=](uint8_t *const *p) -> long long { F->arithex.mula24((W)p[0], (W)p[1]); return 0; }}); break;
    case 19: run(Call{nm + "intmul2", {o(4), e(2), e(2)}, [=](uint8_t *const *p) -> long long { F->arithex.intmul2((W)p[0], (W)p[1], (W)p[2]); return 0; }}); break;
    default: run(Call{nm + "intsqr2", {o(4), e(2)}, [=](uint8_t *const *p) -> long long { F->arithex.intsqr2((W)p[0], (W)p[1]); return 0; }});
  }
}
