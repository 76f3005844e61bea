#include "sig.h"
// Context rules and separation of the signature variants
#include <sys/mman.h>
#include <unistd.h>
// n bytes that end exactly at an unmapped page: reading beyond them crashes the case
struct Edge {
  uint8_t *base, *p; size_t pg = 4096;
  Edge() { base = (uint8_t *)mmap(nullptr, 4 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + 3 * pg, pg, PROT_NONE); p = base; }
  uint8_t *put(const Bytes &b) { p = base + 3 * pg - b.size(); if (b.size()) memcpy(p, b.data(), b.size()); return p; }
};
static const Scheme &ctx_scheme(Src &s) { static const int i[] = {1, 2, 3, 4}; return SCH[i[s.below(4)]]; }
static void keypair(Src &s, Ctx &c, const Scheme &d, uint8_t *sk, uint8_t *pk) {
  std::string kc; gen::key(s, sk, d.ks(), &kc); d.ref_pub(pk, sk); c.hex("sk", sk, d.ks());
}
static uint64_t long_length(Src &s) {
  switch (s.below(6)) {
    case 0: return 256 + s.below(4);
    case 1: return 256 * (1 + s.below(300)) + s.below(3);           // low byte 0, 1, 2
    case 2: return 1ull << (8 + s.below(56));
    case 3: return (1ull << (8 + s.below(56))) + s.below(256);
    case 4: return ~s.below(300);                                   // near 2^64
    default: return 256 + s.below(100000);
  }
}
SUB(refused, 60000, 3000000, "context longer than 255 bytes") {
  const Scheme &d = ctx_scheme(s); uint64_t n = long_length(s); uint8_t sk[57], pk[57], sig[114];
  static Edge e; Bytes present = gen::message(s, s.below(600)); uint8_t *cp = e.put(present);
  keypair(s, c, d, sk, pk); Bytes m = gen::message(s, s.below(40)); c.note("%s context length %llu", d.name, (unsigned long long)n); c.hex("msg", m.data(), m.size());
  c.nontrivial(); c.label((n & 255) == 0 ? "length%256==0" : n > 0xffffffffull ? "length>2^32" : "other");
  Buf<114> out((unsigned)s.below(16), (uint8_t)s.below(256)); Bytes before(out.p, out.p + 114);
  c.eqi("status of sign", d.sign(out, m.data(), m.size(), cp, n, pk, sk), 5);
  c.check(out.intact() && !memcmp(out.p, before.data(), 114), "the refused signing call wrote to the signature buffer");
  // a signature that would be right if the length were silently truncated
  Bytes cut(present.begin(), present.begin() + ((n & 255) < present.size() ? (n & 255) : present.size()));
  if (s.flip()) d.ref_sign(sig, m, cut, pk, sk); else s.bytes(sig, d.ss());
  c.eqi("status of verify", d.verify(m.data(), m.size(), cp, n, pk, sig), 5);
}
SUB(limit, 12000, 400000, "context of 0 to 255 bytes that ends at an unmapped page") {
  const Scheme &d = ctx_scheme(s); size_t n = s.flip() ? 255 - s.below(3) : s.below(256); uint8_t sk[57], pk[57], exp[114];
  static Edge e; Bytes ctx = gen::message(s, n); uint8_t *cp = e.put(ctx); if (!n && s.flip()) cp = nullptr;
  keypair(s, c, d, sk, pk); Bytes m = gen::message(s, s.below(200)); c.note("%s", d.name); c.hex("ctx", ctx.data(), n); c.hex("msg", m.data(), m.size());
  c.nontrivial(); c.label(n == 255 ? "ctx:255" : n == 0 ? "ctx:0" : "ctx:other");
  Buf<114> out; d.ref_sign(exp, m, ctx, pk, sk);
  c.eqi("status of sign", d.sign(out, m.data(), m.size(), cp, n, pk, sk), 1);
  c.eq("signature", out.p, exp, d.ss()); c.eqi("status of verify", d.verify(m.data(), m.size(), cp, n, pk, exp), 2);
}
// sign under one (variant, context, message), verify under another that is easy to confuse with it
SUB(confusion, 30000, 1500000, "the two (variant, context, message) triples differ") {
  bool e448 = s.chance(40); const Scheme &a = scheme(s, e448); const Scheme *b = s.flip() ? &scheme(s, e448) : &a; uint8_t sk[57], pk[57];
  keypair(s, c, a, sk, pk);
  Bytes m = gen::message(s, s.below(60)), x = a.has_ctx ? gctx(s) : Bytes(), m2 = m, x2 = x;
  const char *lab = "variant-only";
  switch (s.below(8)) {
    case 0: break;
    case 1: if (!x2.empty()) { m2.insert(m2.begin(), x2.back()); x2.pop_back(); } lab = "ctx-byte-moved-to-message"; break;
    case 2: if (!m2.empty() && x2.size() < 255) { x2.push_back(m2[0]); m2.erase(m2.begin()); } lab = "message-byte-moved-to-ctx"; break;
    case 3: if (x2.size() < 255) x2.push_back(0); lab = "zero-appended-to-ctx"; break;
    case 4: if (!x2.empty()) x2.resize(s.below(x2.size())); lab = "ctx-shortened"; break;
    case 5: {                                       // the digest instead of the message
      lab = "digest-as-message"; m2 = e448 ? ref::shake256(m, 64) : ref::sha512(m); break; }
    case 6: x2.clear(); lab = "ctx-dropped"; break;
    default: {                                      // the message carries the other variant's prefix
      lab = "prefix-in-message"; const char *pre = e448 ? "SigEd448" : "SigEd25519 no Ed25519 collisions";
      Bytes t(pre, pre + strlen(pre)); t.push_back((uint8_t)(s.below(2))); t.push_back((uint8_t)x.size()); t.insert(t.end(), x.begin(), x.end()); t.insert(t.end(), m.begin(), m.end()); m2 = t; x2.clear(); break; }
  }
  if (!b->has_ctx) x2.clear();
  bool same = b == &a && x2 == x && m2 == m;
  if (s.chance(5)) { b = &a; x2 = x; m2 = m; same = true; lab = "identical"; }
  c.note("%s -> %s", a.name, b->name); c.hex("ctx", x.data(), x.size()); c.hex("msg", m.data(), m.size()); c.hex("ctx2", x2.data(), x2.size()); c.hex("msg2", m2.data(), m2.size());
  c.label(lab); c.nontrivial(!same);
  Buf<114> sig; c.eqi("sign", a.sign(sig, m.data(), m.size(), x.data(), x.size(), pk, sk), 1);
  c.eqi("status of verify", b->verify(m2.data(), m2.size(), x2.data(), x2.size(), pk, sig), same ? 2 : 3);
}
// every variant pair and context length pair of one key, over enumerated lengths
SUB(matrix, 6000, 200000, "all variants and neighbouring context lengths of one signature") {
  bool e448 = s.chance(40); int lo = e448 ? 3 : 0, n = e448 ? 2 : 3; uint8_t sk[57], pk[57]; keypair(s, c, SCH[lo], sk, pk);
  const Scheme &a = SCH[lo + s.below(n)]; Bytes m = gen::message(s, s.below(30)), x = a.has_ctx ? gctx(s) : Bytes(); c.nontrivial();
  c.note("%s", a.name); c.hex("ctx", x.data(), x.size()); c.hex("msg", m.data(), m.size());
  Buf<114> sig; c.eqi("sign", a.sign(sig, m.data(), m.size(), x.data(), x.size(), pk, sk), 1);
  for (int i = 0; i < n; i++) for (int dl = -1; dl <= 1; dl++) {
    const Scheme &b = SCH[lo + i]; Bytes y = x; if (!b.has_ctx) { if (dl) continue; y.clear(); }
    if (dl < 0) { if (y.empty()) continue; y.pop_back(); } if (dl > 0) { if (y.size() == 255) continue; y.push_back(0); }
    bool same = &b == &a && y == x; int r = b.verify(m.data(), m.size(), y.data(), y.size(), pk, sig);
    if (r != (same ? 2 : 3)) c.fail("signature of %s with a %zu-byte context: verify by %s with a %zu-byte context returned %d", a.name, x.size(), b.name, y.size(), r);
  }
}
