// Messages of gibibytes without the memory: eight different mebibytes mapped in a pseudo-random order, so that a
// length or an offset cut to 32 bits reads different bytes
#pragma once
#include "lib.h"
#include <sys/mman.h>
#include <unistd.h>
static const size_t MIB = 1 << 20;
struct Huge {
  uint8_t *base, *p; size_t span, n;
  Huge(Src &s, size_t len) : n(len) {
    const unsigned K = 8; size_t off = s.below(64); uint64_t order = s.u64(); span = (n + off + MIB - 1) / MIB * MIB;
    int fd = memfd_create("m", 0); if (fd < 0 || ftruncate(fd, K * MIB)) s.discard();
    uint8_t *w = (uint8_t *)mmap(0, K * MIB, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (w == MAP_FAILED) s.discard();
    s.bulk(w, K * MIB); munmap(w, K * MIB);
    base = (uint8_t *)mmap(0, span + 2 * MIB, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { close(fd); s.discard(); }
    bool ok = true; for (size_t i = 0; i < span / MIB; i++) ok = ok && mmap(base + MIB + i * MIB, MIB, PROT_READ, MAP_SHARED | MAP_FIXED, fd, (off_t)(pbt::mix(order, i) % K * MIB)) != MAP_FAILED;
    close(fd); if (!ok) s.discard(); p = base + MIB + off;
  }
  Huge(const Huge &) = delete;
  ~Huge() { munmap(base, span + 2 * MIB); }
  ref::View view() const { return ref::View(p, n); }
};
// just past 2^29 bytes (2^32 bits), 2^31 and 2^32 bytes
static inline size_t huge_len(Src &s, unsigned cls) { static const size_t B[] = {1ull << 32, 1ull << 29, 1ull << 31}; return B[cls % 3] + (s.flip() ? s.below(1 << 20) : s.below(300)); }
static inline const char *huge_name(unsigned cls) { static const char *N[] = {"2^32 bytes and more", "2^29 bytes and more", "2^31 bytes and more"}; return N[cls % 3]; }
