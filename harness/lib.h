// The library's public interface (repository headers) plus aligned / canaried buffers.
#pragma once
#include <faz_fp_avx2.h>
#include <faz_ecdh_avx2.h>
#include <faz_eddsa_avx2.h>
#include <faz_hash_avx2.h>
#include "gen.h"
#include "pbt.h"
#include "ref.h"
using namespace faz::fp;
using namespace faz::ecdh;
using namespace faz::eddsa;
using pbt::Ctx;
using pbt::Src;
using ref::Bytes;

// N bytes surrounded by canaries, at any alignment offset
template <size_t N> struct Buf {
  alignas(64) uint8_t raw[64 + N + 128];
  uint8_t *p;
  explicit Buf(unsigned off = 0, uint8_t fill = 0xa5) { memset(raw, 0xc3, sizeof raw); p = raw + 64 + off; memset(p, fill, N); }
  operator uint8_t *() { return p; }
  bool intact() const {
    for (const uint8_t *q = raw; q < p; q++) if (*q != 0xc3) return false;
    for (const uint8_t *q = p + N; q < raw + sizeof raw; q++) if (*q != 0xc3) return false;
    return true;
  }
};
