// Two-way SHA-512 against two reference digests
#include "hash.h"
#include "huge.h"
#include <thread>
SUB(pair, 800000, 50000000, "any pair of messages of one length") {
  size_t n = gen::length(s, 128, s.chance(2) ? 70000 : 2000); Bytes a = gen::message(s, n), b = gen::message(s, n);
  if (s.chance(20)) b = a; if (n && s.chance(20)) { b = a; b[s.below(n)] ^= (uint8_t)(1 << s.below(8)); c.label("one bit apart"); }
  Placed pa(s, a), pb(s, b); describe(c, a, 128); c.note("alignments %u %u", (unsigned)((uintptr_t)pa.p % 64), (unsigned)((uintptr_t)pb.p % 64)); c.nontrivial(true); unsigned k = n % 128; if (k >= 110 && k <= 113) c.label("length field boundary");
  Buf<64> da((unsigned)s.below(65)), db((unsigned)s.below(65)); uint8_t *m[2] = {pa.p, pb.p}, *d[2] = {da.p, db.p};
  sha512_2w_avx(m, n, d);
  c.eq("digest of the first message", da.p, ref::sha512(a).data(), 64); c.eq("digest of the second message", db.p, ref::sha512(b).data(), 64); c.check(da.intact() && db.intact(), "memory around a digest was written"); pa.verify(c); pb.verify(c);
  if (m[0] != pa.p || m[1] != pb.p || d[0] != da.p || d[1] != db.p) c.fail("the pointer arrays were changed");
  if (s.chance(20)) { uint8_t *mm[2] = {pa.p, pa.p}; sha512_2w_avx(mm, n, d); c.eq("first digest, same buffer twice", da.p, ref::sha512(a).data(), 64); c.eq("second digest, same buffer twice", db.p, ref::sha512(a).data(), 64); c.label("same buffer in both lanes"); }
}
// 32-byte messages, at the end of a readable page
SUB(fixed32, 200000, 8000000, "any pair of 32-byte messages") {
  if (!sha512_2w_avx_256b) s.discard();
  static uint8_t *page = [] { uint8_t *p = (uint8_t *)mmap(0, 8 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, 4096, PROT_NONE); mprotect(p + 3 * 4096, 4096, PROT_NONE); return p; }();
  unsigned o0 = (unsigned)s.below(40), o1 = (unsigned)s.below(40); uint8_t *m[2] = {page + 4096 - 32 - o0, page + 3 * 4096 - 32 - o1};
  Bytes a(32), b(32); gen::structured(s, a.data(), 32); if (s.flip()) s.bytes(b.data(), 32); memcpy(m[0], a.data(), 32); memcpy(m[1], b.data(), 32); c.hex("first", a.data(), 32); c.hex("second", b.data(), 32); c.nontrivial(true);
  Buf<64> da((unsigned)s.below(33)), db((unsigned)s.below(33)); uint8_t *d[2] = {da.p, db.p}; sha512_2w_avx_256b(m, d);
  c.eq("digest of the first message", da.p, ref::sha512(a).data(), 64); c.eq("digest of the second message", db.p, ref::sha512(b).data(), 64); c.check(da.intact() && db.intact(), "memory around a digest was written"); c.eq("first message", m[0], a.data(), 32); c.eq("second message", m[1], b.data(), 32);
}
// lengths past 2^29 bytes (2^32 bits), 2^31 and 2^32 bytes
SUBX(huge, 2, 42, "messages of 2^29 bytes or more", 900, 0, 4) {
  unsigned cls = (unsigned)s.enumerate(3); size_t n = huge_len(s, cls); Huge A(s, n), B(s, n); c.note("length %zu", n); c.nontrivial(true); c.label(huge_name(cls));
  uint8_t d0[64], d1[64]; uint8_t *m[2] = {A.p, B.p}, *d[2] = {d0, d1}; sha512_2w_avx(m, n, d);
  Bytes e0, e1; std::thread t([&] { e1 = ref::sha2_64(512, B.p, n); }); e0 = ref::sha2_64(512, A.p, n); t.join();
  c.eq("digest of the first message", d0, e0.data(), 64); c.eq("digest of the second message", d1, e1.data(), 64);
}
