// SHA-3 and SHAKE: one-shot and incremental, every length, split and output length
#include "hash.h"
#include "huge.h"
#include <thread>
static size_t outlen(Src &s, size_t rate) { switch (s.below(5)) { case 0: return s.below(66); case 1: return s.below(rate + 3); case 2: { size_t k = 1 + s.below(5); long d = (long)s.below(7) - 3; return (size_t)((long)(k * rate) + d); } case 3: return 32 * s.below(12); default: return s.below(1500); } }
struct Out { Bytes st; uint8_t *p; size_t n; Out(Src &s, size_t n_) : n(n_) { unsigned off = (unsigned)s.below(65); st.assign(n + 512, 0xa5); p = (uint8_t *)(((uintptr_t)st.data() + 63) & ~(uintptr_t)63) + 64 + off; }
  void verify(Ctx &c) { for (uint8_t *q = st.data(); q < st.data() + st.size(); q++) if ((q < p || q >= p + n) && *q != 0xa5) c.fail("wrote outside the %zu bytes of the output (at offset %ld)", n, (long)(q - p)); } };
SUB(shake, 500000, 30000000, "any message, split and output length") {
  bool big = s.flip(); size_t r = big ? 136 : 168; Bytes m = gen::message(s, gen::length(s, r, s.chance(2) ? 60000 : 1500)); size_t n = s.chance(2) ? s.below(40000) : outlen(s, r);
  describe(c, m, r); c.note("%s, output %zu bytes", big ? "SHAKE256" : "SHAKE128", n); c.nontrivial(true); if (n > r) c.label("several output blocks"); if (n && n % r == 0) c.label("whole output blocks"); if (!n) c.label("empty output");
  Bytes e = big ? ref::shake256(m, n) : ref::shake128(m, n); Placed in(s, m); Out o(s, n);
  unsigned how = (unsigned)s.below(3);
  if (how == 0) { c.label("one-shot"); (big ? SHAKE256 : SHAKE128)(in.p, (DataLength)m.size() * 8, o.p, (unsigned)n); }
  else if (how == 1 && Hash2) { c.label("Hash2"); Hash2(big ? 256 : 128, in.p, (DataLength)m.size() * 8, o.p, (int)n); }
  else { c.label("incremental"); hashState st; memset(&st, 0x5a, sizeof st); Init(&st, big ? 256 : 128); std::vector<size_t> v = split(s, m.size(), r); c.note("pieces %s", show(v).c_str()); uint8_t *p = in.p; for (size_t k : v) { Update(&st, p, (DataLength)k * 8); p += k; } Final2(&st, o.p, (unsigned)n); }
  if (n) c.eq("output", o.p, e.data(), n); o.verify(c); in.verify(c);
}
SUB(sha3, 500000, 30000000, "any message and split") {
  static const int bits[] = {224, 256, 384, 512}; int b = bits[s.below(4)]; size_t r = 200 - b / 4, n = b / 8; Bytes m = gen::message(s, gen::length(s, r, s.chance(2) ? 60000 : 1500)); describe(c, m, r); c.note("SHA3-%d", b); c.nontrivial(true); c.label(b == 224 ? "SHA3-224" : b == 256 ? "SHA3-256" : b == 384 ? "SHA3-384" : "SHA3-512");
  Bytes e = ref::keccak((unsigned)r, 0x06, m.data(), m.size(), n); Placed in(s, m); Out o(s, n);
  if (s.below(2) == 0) { c.label("one-shot"); Hash(b, in.p, (DataLength)m.size() * 8, o.p); }
  else { hashState st; memset(&st, 0x5a, sizeof st); unsigned rounds = s.chance(30) ? 2 : 1; for (unsigned k2 = 0; k2 < rounds; k2++) { Init(&st, b); std::vector<size_t> v = split(s, m.size(), r); c.note("pieces %s", show(v).c_str()); c.label("incremental"); uint8_t *p = in.p; for (size_t k : v) { Update(&st, p, (DataLength)k * 8); p += k; } Final(&st, o.p); } }
  c.eq("digest", o.p, e.data(), n); o.verify(c); in.verify(c);
}
SUB(interleave, 120000, 8000000, "two or three sponge states with interleaved updates and copies") {
  unsigned n = 2 + (unsigned)s.below(2); hashState st[3]; Bytes m[3]; int h[3]; static const int kinds[] = {128, 256, 224, 256 + 1000, 384, 512};
  for (unsigned i = 0; i < n; i++) { h[i] = kinds[s.below(6)]; Init(&st[i], h[i] % 1000 == 256 ? 256 : h[i]); }
  unsigned steps = (unsigned)s.below(24); c.nontrivial(steps > 2);
  for (unsigned k = 0; k < steps; k++) { unsigned i = (unsigned)s.below(n);
    if (s.chance(8)) { unsigned j = (unsigned)s.below(n); st[j] = st[i]; m[j] = m[i]; h[j] = h[i]; c.note("state %u := %u", j, i); c.label("copied state"); continue; }
    Bytes q = gen::message(s, s.below(s.flip() ? 180 : 20)); Update(&st[i], q.data(), (DataLength)q.size() * 8); m[i].insert(m[i].end(), q.begin(), q.end()); c.note("state %u += %zu bytes", i, q.size()); }
  for (unsigned i = 0; i < n; i++) { uint8_t d[256]; if (h[i] == 128 || h[i] == 256) { size_t o = 1 + s.below(200); Final2(&st[i], d, (unsigned)o); c.eq("output of a state", d, ref::keccak(h[i] == 128 ? 168 : 136, 0x1f, m[i].data(), m[i].size(), o).data(), o); }
    else { int b = h[i] % 1000; if (h[i] == 1256) b = 256; Final(&st[i], d); c.eq("digest of a state", d, ref::keccak(200 - b / 4, 0x06, m[i].data(), m[i].size(), b / 8).data(), b / 8); } }
}
// messages of 2^29 bytes (2^32 bits), 2^31, 2^32 and more
SUBX(huge_message, 5, 100, "message of 2^29 bytes or more", 900, 0, 8) {
  static const int kinds[] = {1128, 1256, 256, 512, 224, 384}; unsigned how = (unsigned)s.enumerate(5), cls = (unsigned)s.enumerate(3); int k = how < 2 ? kinds[how] : how == 2 ? kinds[2 + s.below(4)] : kinds[s.below(6)]; bool xof = k > 1000; int b = k % 1000; size_t r = 200 - b / 4, on = xof ? 1 + s.below(500) : b / 8;
  Huge H(s, huge_len(s, cls)); c.note("%s%d, %zu bytes, output %zu", xof ? "SHAKE" : "SHA3-", b, H.n, on); c.label(huge_name(cls)); c.nontrivial(); Bytes o(on + 512), e; std::thread t([&] { e = ref::keccak((unsigned)r, xof ? 0x1f : 0x06, H.p, H.n, on); });
  if (how < 3) { c.label("one-shot"); if (xof) (b == 128 ? SHAKE128 : SHAKE256)(H.p, (DataLength)H.n * 8, o.data(), (unsigned)on); else Hash(b, H.p, (DataLength)H.n * 8, o.data()); }
  else { hashState st; Init(&st, b); size_t done = 0; c.label(how == 3 ? "one update after a short one" : "pieces"); while (done < H.n) { size_t q = done == 0 ? s.below(200) : how == 3 ? H.n - done : s.chance(10) ? 1 + s.below(300) : 1 + s.below(1ull << 30); if (q > H.n - done) q = H.n - done; Update(&st, H.p + done, (DataLength)q * 8); done += q; if (!q) Update(&st, H.p, 0); if (done == 0) { Update(&st, H.p, 8); done = 1; } } if (xof) Final2(&st, o.data(), (unsigned)on); else Final(&st, o.data()); }
  t.join(); c.eq("output", o.data(), e.data(), on);
}
// outputs of 2^31 bytes up to the largest request, 2^32-1: most of the output region is one mebibyte mapped again and
// again, the pieces at the front, around 2^31 and at the end are memory of their own; nothing is mapped around it
SUBX(huge_output, 4, 64, "output of 2^31 bytes or more", 900, 0, 8) {
  unsigned how = (unsigned)s.enumerate(4); bool wide = s.enumerate(2) == 0; size_t n = wide ? 0xffffffffull - s.below(s.flip() ? 400 : 1 << 20) : (1ull << 31) + (s.flip() ? s.below(400) : s.below(1 << 20)); unsigned r = how & 1 ? 136 : 168;
  Bytes m = gen::message(s, s.below(400)); c.note("%s, message %zu bytes, output %zu bytes", how == 0 ? "SHAKE128" : how == 1 ? "SHAKE256" : how == 2 ? "Init(128) and Final2" : "Init(256) and Final2", m.size(), n); c.label(wide ? "close to 2^32 bytes" : "2^31 bytes and more"); c.nontrivial();
  const size_t G = (1ull << 32) + MIB, span = (n + MIB - 1) / MIB * MIB + MIB; uint8_t *all = (uint8_t *)mmap(0, span + 2 * G, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (all == MAP_FAILED) s.discard(); uint8_t *o = all + G;
  int fd = memfd_create("o", 0); bool ok = fd >= 0 && !ftruncate(fd, MIB); std::vector<std::pair<size_t, size_t>> own = {{0, MIB}, {(1ull << 31) - MIB, 2 * MIB}, {span - 3 * MIB, 3 * MIB}};
  for (size_t i = 0; i < span; i += MIB) ok = ok && mmap(o + i, MIB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
  for (auto &w : own) ok = ok && mmap(o + w.first, w.second, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != MAP_FAILED;
  if (fd >= 0) close(fd); if (!ok) { munmap(all, span + 2 * G); s.discard(); } memset(o + n, 0xa5, span - n);
  std::vector<std::pair<size_t, Bytes>> want;
  std::thread t([&] { ref::Sponge S(r); S.absorb(m.data(), m.size()); S.pad(0x1f); Bytes buf(MIB); for (size_t i = 0; i < n; i += MIB) { size_t k = n - i < MIB ? n - i : MIB; S.squeeze(buf.data(), k); for (auto &w : own) if (i >= w.first && i < w.first + w.second) want.push_back({i, Bytes(buf.begin(), buf.begin() + (long)k)}); } });
  if (how < 2) (how ? SHAKE256 : SHAKE128)(m.data(), (DataLength)m.size() * 8, o, (unsigned)n); else { hashState st; Init(&st, how == 2 ? 128 : 256); Update(&st, m.data(), (DataLength)m.size() * 8); Final2(&st, o, (unsigned)n); }
  t.join(); std::string bad; for (auto &w : want) if (bad.empty() && memcmp(o + w.first, w.second.data(), w.second.size())) bad = "output differs in the mebibyte at offset " + std::to_string(w.first);
  for (size_t i = n; i < span && bad.empty(); i++) if (o[i] != 0xa5) bad = "wrote after the end of the output, at +" + std::to_string(i - n);
  munmap(all, span + 2 * G); if (!bad.empty()) c.fail("%s", bad.c_str());
}
