// SHA-512 / SHA-384: splits, alignments, trailing bits, context reuse
#include "hash.h"
#include "huge.h"
SUB(stream, 600000, 40000000, "any message in any split; up to three messages through one context") {
  bool w = s.flip(); std::vector<uint8_t> mem(sizeof(sph_sha512_context) + 64, 0xa5); sph_sha512_context *cx = (sph_sha512_context *)(((uintptr_t)mem.data() + 15) & ~(uintptr_t)15);
  unsigned rounds = 1 + (unsigned)s.below(3);
  if (w) sph_sha512_init(cx); else sph_sha384_init(cx);
  c.nontrivial(true); c.label(w ? "SHA-512" : "SHA-384"); const size_t D = w ? 64 : 48;
  for (unsigned r = 0; r < rounds; r++) {
    Bytes m = gen::message(s, gen::length(s, 128, s.chance(2) ? 70000 : 1500)); Placed in(s, m); std::vector<size_t> v = split(s, m.size(), 128);
    describe(c, m, 128); c.note("pieces %s", show(v).c_str()); if (v.size() > 1) c.label("several pieces"); unsigned k = m.size() % 128; if (k >= 110 && k <= 113) c.label("length field boundary"); if (r) c.label("context reused after closing");
    if (r && s.chance(10)) { if (w) sph_sha512_init(cx); else sph_sha384_init(cx); }
    if (s.chance(10)) { uint8_t junk[200]; memset(junk, 0x77, sizeof junk); if (w) sph_sha512(cx, junk, s.below(200)); else sph_sha384(cx, junk, s.below(200)); if (w) sph_sha512_init(cx); else sph_sha384_init(cx); c.label("reset in mid-message"); }
    uint8_t *p = in.p; for (size_t k2 : v) { if (w) sph_sha512(cx, p, k2); else sph_sha384(cx, p, k2); p += k2; }
    Buf<64> d((unsigned)s.below(33)); unsigned nb = s.chance(40) ? (unsigned)s.below(8) : 0, ub = (unsigned)s.below(256); bool bits = nb || s.chance(20);
    if (bits) { c.note("trailing bits: %u of %02x", nb, ub); c.label("addbits_and_close"); }
    if (w) { if (bits) sph_sha512_addbits_and_close(cx, ub, nb, d.p); else sph_sha512_close(cx, d.p); } else { if (bits) sph_sha384_addbits_and_close(cx, ub, nb, d.p); else sph_sha384_close(cx, d.p); }
    c.eq(w ? "SHA-512 digest" : "SHA-384 digest", d.p, ref::sha2_64(w ? 512 : 384, m.data(), m.size(), ub, bits ? nb : 0).data(), D);
    for (size_t i = D; i < 64; i++) if (d.p[i] != 0xa5) c.fail("bytes after the digest were written"); c.check(d.intact(), "memory around the digest was written"); in.verify(c);
  }
}
// two contexts advanced alternately do not disturb each other; a copied context continues on its own
SUB(interleave, 120000, 8000000, "two or three contexts with interleaved updates") {
  unsigned n = 2 + (unsigned)s.below(2); sph_sha512_context cx[3]; Bytes m[3]; bool w[3];
  for (unsigned i = 0; i < n; i++) { w[i] = s.flip(); if (w[i]) sph_sha512_init(&cx[i]); else sph_sha384_init(&cx[i]); }
  unsigned steps = (unsigned)s.below(24); c.nontrivial(steps > 2);
  for (unsigned k = 0; k < steps; k++) {
    unsigned i = (unsigned)s.below(n);
    if (s.chance(8)) { unsigned j = (unsigned)s.below(n); cx[j] = cx[i]; m[j] = m[i]; w[j] = w[i]; c.note("context %u := %u", j, i); c.label("copied context"); continue; }
    Bytes q = gen::message(s, s.below(s.flip() ? 140 : 20)); if (w[i]) sph_sha512(&cx[i], q.data(), q.size()); else sph_sha384(&cx[i], q.data(), q.size()); m[i].insert(m[i].end(), q.begin(), q.end()); c.note("context %u += %zu bytes", i, q.size());
  }
  for (unsigned i = 0; i < n; i++) { uint8_t d[64]; if (w[i]) sph_sha512_close(&cx[i], d); else sph_sha384_close(&cx[i], d); Bytes e = ref::sha2_64(w[i] ? 512 : 384, m[i].data(), m[i].size()); c.eq("digest of a context", d, e.data(), e.size()); }
}
SUB(block, 100000, 6000000, "any block and any chaining value") {
  sph_u64 b[16], v[8]; Bytes raw(128); if (s.flip()) s.bytes(raw.data(), 128); else gen::structured(s, raw.data(), 128);
  for (int i = 0; i < 16; i++) { uint64_t x; memcpy(&x, raw.data() + 8 * i, 8); b[i] = __builtin_bswap64(x); } c.nontrivial(true);
  // compression of the first block of a 128-byte message, then of its padding block
  static const uint64_t IV[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
  memcpy(v, IV, 64); sph_sha512_comp(b, v); sph_u64 pad[16] = {1ull << 63}; pad[15] = 1024; sph_sha512_comp(pad, v);
  uint8_t d[64]; for (int i = 0; i < 8; i++) { uint64_t x = __builtin_bswap64(v[i]); memcpy(d + 8 * i, &x, 8); } c.hex("block", raw.data(), 128); c.eq("chained compression", d, ref::sha512(raw).data(), 64);
}
// lengths past 2^29, 2^31 and 2^32 bytes, in one piece and in uneven ones
SUBX(huge, 4, 120, "message of 2^29 bytes or more", 900, 0, 8) {
  bool w = s.enumerate(2) == 0; bool one = s.enumerate(2) == 0; unsigned cls = (unsigned)s.enumerate(3); Huge H(s, huge_len(s, cls)); c.note("%s, %zu bytes, %s", w ? "SHA-512" : "SHA-384", H.n, one ? "one piece" : "pieces"); c.nontrivial(true); c.label(huge_name(cls));
  sph_sha512_context cx; if (w) sph_sha512_init(&cx); else sph_sha384_init(&cx); size_t done = 0, first = s.below(130);
  while (done < H.n) { size_t k = done == 0 && first ? first : one ? H.n - done : s.chance(10) ? 1 + s.below(300) : s.chance(5) ? H.n - done : 1 + s.below(1ull << 26); if (k > H.n - done) k = H.n - done; if (w) sph_sha512(&cx, H.p + done, k); else sph_sha384(&cx, H.p + done, k); done += k; }
  uint8_t d[64]; if (w) sph_sha512_close(&cx, d); else sph_sha384_close(&cx, d);
  Bytes e = ref::sha2_64(w ? 512 : 384, H.p, H.n); c.eq("digest", d, e.data(), e.size());
}
