// Erasure: after a Diffie-Hellman call returns, no memory it used (its stack, heap blocks it obtained, static storage) holds the
// private key, its clamped form or, where the base point is multiplied, that form divided by the cofactor. The call runs on a stack of its own that is scanned, with the blocks and the static data, afterwards.
#include "lib.h"
#include <malloc.h>
#include <sys/mman.h>
static const size_t W = 16, STACK = 256 << 10;                 // a trace is W consecutive bytes of the key
static uint8_t *stk; static std::vector<std::string> *hits;
struct Needles {
  struct N { uint8_t b[W]; const char *what; unsigned at; }; std::vector<N> v; std::vector<uint64_t> bits = std::vector<uint64_t>(1024);
  void add(const uint8_t *k, size_t n, const char *what) {
    for (size_t i = 0; i + W <= n; i++) { unsigned d = 0; uint64_t seen[4] = {0}; for (size_t j = 0; j < W; j++) { uint8_t x = k[i + j]; if (!(seen[x >> 6] >> (x & 63) & 1)) { seen[x >> 6] |= 1ull << (x & 63); d++; } }
      if (d < 12) continue;                                    // a pattern that other data may show as well
      N t; memcpy(t.b, k + i, W); t.what = what; t.at = (unsigned)i; v.push_back(t); uint16_t h; memcpy(&h, k + i, 2); bits[h >> 6] |= 1ull << (h & 63); }
  }
  const N *find(const uint8_t *p, size_t n, size_t *at) const {
    for (size_t i = 0; i + W <= n; i++) { uint16_t h; memcpy(&h, p + i, 2); if (bits[h >> 6] >> (h & 63) & 1) for (auto &x : v) if (!memcmp(p + i, x.b, W)) { *at = i; return &x; } }
    return nullptr;
  }
};
static const Needles *looking; static struct { void *p; } blocks[64]; static unsigned nblocks; static char first[160];
static void inspect(const void *p, size_t n, const char *where) { size_t at; const Needles::N *x = looking->find((const uint8_t *)p, n, &at); if (x && !first[0]) snprintf(first, sizeof first, "%s holds %zu bytes of %s (from byte %u), %zu bytes from its start", where, W, x->what, x->at, at); }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void __real_free(void *);
static void *got(void *p) { if (looking && p && nblocks < 64) blocks[nblocks++].p = p; return p; }
void *__wrap_malloc(size_t n) { return got(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { return got(__real_calloc(a, b)); }
void *__wrap_realloc(void *p, size_t n) { if (looking && p) inspect(p, malloc_usable_size(p), "a heap block given to realloc"); return got(__real_realloc(p, n)); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) got(*p); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { return got(__real_aligned_alloc(a, n)); }
void __wrap_free(void *p) { if (looking && p) { inspect(p, malloc_usable_size(p), "a heap block being freed"); for (unsigned i = 0; i < nblocks; i++) if (blocks[i].p == p) blocks[i] = blocks[--nblocks]; } __real_free(p); }
extern char __data_start, _end;
}
struct Job { unsigned op; uint8_t *out, *peer, *key; };
static void go(void *v) { Job *j = (Job *)v; switch (j->op) { case 0: X25519.keygen(j->out, j->key); break; case 1: X25519.shared(j->out, j->peer, j->key); break; case 2: X25519_x64.shared(j->out, j->peer, j->key); break; case 3: X448.keygen(j->out, j->key); break; case 4: X448.shared(j->out, j->peer, j->key); break; default: X25519_x64.keygen(j->out, j->key); } }
__attribute__((noinline)) static void on_stack(uint8_t *top, void (*f)(void *), void *a) {
  asm volatile("movq %%rsp,%%rbx; movq %[t],%%rsp; callq *%[f]; movq %%rbx,%%rsp" : "+D"(a) : [t] "r"(top), [f] "r"(f) : "rbx", "rax", "rcx", "rdx", "rsi", "r8", "r9", "r10", "r11", "memory", "cc",
               "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}
static void erased(Src &s, Ctx &c, unsigned op) {
  static const char *nm[] = {"X25519.keygen", "X25519.shared", "X25519_x64.shared", "X448.keygen", "X448.shared", "X25519_x64.keygen"}; bool k448 = op == 3 || op == 4; size_t n = k448 ? 56 : 32;
  if (!stk) { stk = (uint8_t *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0); }
  size_t o1 = s.below(8), o2 = s.below(8); std::vector<uint8_t> key(n + 8), peer(n + 8), out(n + 8); uint8_t *k = key.data() + o1, *u = peer.data() + o2; std::string cls;
  s.bytes(k, n); if (s.chance(40)) { unsigned f = 1 + (unsigned)s.below(6); while (f--) { size_t i = s.below(n), l = 1 + s.below(8); for (size_t j = i; j < n && j < i + l; j++) k[j] = s.flip() ? 0 : 0xff; } }
  bool shared = op == 1 || op == 2 || op == 4; if (shared) { if (k448) gen::peer448(s, u, &cls); else gen::peer25519(s, u, &cls); c.hex("peer value", u, n); c.label(cls); }
  c.note("%s", nm[op]); c.hex("private key", k, n);
  uint8_t cl[56]; memcpy(cl, k, n); if (k448) { cl[0] &= 0xfc; cl[55] |= 0x80; } else { cl[0] &= 0xf8; cl[31] = (cl[31] & 0x7f) | 0x40; }
  Needles N; N.add(k, n, "the private key"); N.add(cl, n, "the clamped private key");
  if (!shared) { unsigned h = k448 ? 2 : 3; for (size_t i = 0; i < n; i++) cl[i] = (uint8_t)(cl[i] >> h | (i + 1 < n ? cl[i + 1] << (8 - h) : 0)); N.add(cl, n, k448 ? "the clamped private key divided by 4" : "the clamped private key divided by 8"); }
  if (N.v.size() < 4) s.discard(); c.nontrivial(true);
  if (shared) { size_t at; if (N.find(u, n, &at)) s.discard(); }
  unsigned align = (unsigned)s.below(4); memset(stk, 0, STACK); Job j = {op, out.data() + s.below(8), u, k}; memset(cl, 0, sizeof cl);
  first[0] = 0; nblocks = 0; looking = &N; on_stack(stk + STACK - 64 - 16 * align, go, &j);
  for (unsigned i = 0; i < nblocks; i++) inspect(blocks[i].p, malloc_usable_size(blocks[i].p), "a heap block still allocated");
  inspect(stk, STACK, "the stack below the caller"); inspect(&__data_start, (size_t)(&_end - &__data_start), "static storage"); looking = nullptr; memset(stk, 0, STACK);
  if (first[0]) c.fail("%s: after the call %s", nm[op], first);
}
#define OPS(id, op, q, t) SUB(id, q, t, "the key has recognisable runs of bytes") { erased(s, c, op); }
OPS(x25519_keygen, 0, 20000, 1500000) OPS(x25519_shared, 1, 20000, 1500000) OPS(x64_shared, 2, 20000, 1500000) OPS(x448_keygen, 3, 20000, 1500000) OPS(x448_shared, 4, 20000, 1000000) OPS(x64_keygen, 5, 10000, 500000)
