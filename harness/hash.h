// Shared generators of the hash checks: messages in place at any alignment, ways of splitting them
#pragma once
#include "lib.h"
extern "C" {
#include "multi_hash.h"
#include "sha3.h"
#include "sha512.h"
void sha512_2w_avx_256b(uint8_t *[2], uint8_t *[2]) __attribute__((weak));
HashReturn Hash2(int, const BitSequence *, DataLength, BitSequence *, int) __attribute__((weak));
HashReturn SHAKE(int, const BitSequence *, DataLength, BitSequence *, unsigned int) __attribute__((weak));
}
struct Placed {      // message bytes at a chosen alignment inside canaries
  Bytes store; uint8_t *p; size_t n; Bytes copy;
  Placed(Src &s, const Bytes &m) : n(m.size()), copy(m) { unsigned off = (unsigned)s.below(65); store.assign(n + 192, 0xc3); p = (uint8_t *)(((uintptr_t)store.data() + 63) & ~(uintptr_t)63) + off; if (n) memcpy(p, m.data(), n); }
  void verify(Ctx &c) const { if (n && memcmp(p, copy.data(), n)) c.fail("the call changed its input message"); for (const uint8_t *q = store.data(); q < store.data() + store.size(); q++) if ((q < p || q >= p + n) && *q != 0xc3) c.fail("memory around the input message was written"); }
};
static inline std::vector<size_t> split(Src &s, size_t n, size_t block) {
  std::vector<size_t> v; size_t left = n; unsigned style = (unsigned)s.below(6);
  if (style == 0) { v.push_back(n); return v; }
  while (left && v.size() < 300) {
    size_t k;
    switch (style) { case 1: k = s.below(4); break; case 2: k = block - 2 + s.below(5); break; case 3: k = s.below(block + 2); break; case 4: k = s.flip() ? s.below(2 * block + 3) : s.below(3); break; default: k = s.below(left + 1); }
    if (k > left) k = left; v.push_back(k); left -= k;
  }
  if (left || v.empty() || s.chance(20)) v.push_back(left);
  return v;
}
static inline std::string show(const std::vector<size_t> &v) { std::string r; for (size_t i = 0; i < v.size() && i < 40; i++) r += (i ? "," : "") + std::to_string(v[i]); return r + (v.size() > 40 ? ",.." : ""); }
static inline void describe(Ctx &c, const Bytes &m, size_t block) {
  c.note("length %zu", m.size()); if (m.size() <= 320) c.hex("message", m.data(), m.size()); else c.hex("SHA-512 of the message (reference)", ref::sha512(m).data(), 64);
  c.label(m.empty() ? "empty" : m.size() < block ? "below one block" : m.size() < 10 * block ? "few blocks" : "many blocks"); size_t r = m.size() % block; if (r <= 1 || r == block - 1) c.label("block boundary");
}
