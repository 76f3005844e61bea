// Independence of the secret: the machine-code trace (every instruction address and every memory operand address) of a secret-key
// operation is recorded for one private key and compared, event by event, with the trace for other private keys and the same public inputs.
//   default  : the library exactly as the project builds it, single-stepped through the processor's trap flag
//   -DCOV    : a build whose basic blocks and memory accesses call back (many more key pairs; inline assembly is one opaque step)
#include "calls.h"
#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
struct Event { uint64_t pc, addr; };
static const size_t CAP = 8u << 20;
struct Shared { uint64_t n; uint64_t diff, got_pc, got_addr; uint8_t differs, done; Event e[CAP]; };
static Shared *T; static volatile bool on, comparing; static uint64_t pos;
#ifdef COV
#define NOCOV __attribute__((no_sanitize("all")))
#else
#define NOCOV
#endif
NOCOV static inline void event(uint64_t pc, uint64_t addr) {
  uint64_t i = pos++; if (i >= CAP) return;
  if (!comparing) { T->e[i].pc = pc; T->e[i].addr = addr; return; }
  if (T->differs) return;
  if (i >= T->n || T->e[i].pc != pc || T->e[i].addr != addr) { T->differs = 1; T->diff = i; T->got_pc = pc; T->got_addr = addr; }
}
#ifdef COV
extern "C" {
void __sanitizer_cov_trace_pc(void) { if (on) event((uint64_t)__builtin_return_address(0), 0); }
#define L(n) void __asan_load##n##_noabort(uint64_t a) { if (on) event((uint64_t)__builtin_return_address(0), a); } void __asan_store##n##_noabort(uint64_t a) { if (on) event((uint64_t)__builtin_return_address(0), a); }
L(1) L(2) L(4) L(8) L(16)
void __asan_loadN_noabort(uint64_t a, uint64_t n) { if (on) event((uint64_t)__builtin_return_address(0), a + (n << 56)); }
void __asan_storeN_noabort(uint64_t a, uint64_t n) { if (on) event((uint64_t)__builtin_return_address(0), a + (n << 56)); }
void __asan_handle_no_return(void) {}
}
static void start_trace() { pos = 0; on = true; asm volatile("" ::: "memory"); }
static void stop_trace() { asm volatile("" ::: "memory"); on = false; }
static void arm() {}
#else
static const int REG[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
// base + index * scale of the memory operand, up to displacements (constant at every instruction); 0 without one
static uint64_t operand(const uint8_t *p, const greg_t *r, const ucontext_t *u) {
  int rex = 0; bool evex = false; int map = 0, op; (void)u;
  for (;; p++) { uint8_t b = *p; if (b == 0x66 || b == 0xf2 || b == 0xf3 || b == 0x2e || b == 0x36 || b == 0x3e || b == 0x26 || b == 0x64 || b == 0x65 || b == 0x67 || b == 0xf0) continue; break; }
  if ((*p & 0xf0) == 0x40) rex = *p++ & 15;
  if (*p == 0xc5) { map = 1; op = p[2]; p += 3; }
  else if (*p == 0xc4) { rex = (~p[1] >> 5) & 7; map = p[1] & 31; op = p[3]; p += 4; }
  else if (*p == 0x62) { evex = true; rex = (~p[1] >> 5) & 7; map = p[1] & 7; op = p[4]; p += 5; }
  else if (*p == 0x0f) { if (p[1] == 0x38) { map = 2; op = p[2]; p += 3; } else if (p[1] == 0x3a) { map = 3; op = p[2]; p += 3; } else { map = 1; op = p[1]; p += 2; } }
  else { op = *p++; }
  bool modrm;
  if (map == 0) {
    if (op < 0x40) modrm = (op & 7) < 4; else if (op == 0x63 || op == 0x69 || op == 0x6b) modrm = true; else if (op >= 0x80 && op <= 0x8f) modrm = op != 0x8d;
    else modrm = op == 0xc0 || op == 0xc1 || op == 0xc6 || op == 0xc7 || (op >= 0xd0 && op <= 0xd3) || (op >= 0xd8 && op <= 0xdf) || op == 0xf6 || op == 0xf7 || op == 0xfe || op == 0xff;
    if (op == 0xa4 || op == 0xa5 || op == 0xa6 || op == 0xa7) return (uint64_t)r[REG_RSI] * 3 + (uint64_t)r[REG_RDI];
    if (op == 0xaa || op == 0xab || op == 0xae || op == 0xaf) return (uint64_t)r[REG_RDI]; if (op == 0xac || op == 0xad) return (uint64_t)r[REG_RSI]; if (op == 0xd7) return (uint64_t)r[REG_RBX] + (r[REG_RAX] & 255);
  } else if (map == 1) modrm = !(op == 0x05 || (op >= 0x06 && op <= 0x0b) || op == 0x0e || (op >= 0x19 && op <= 0x1f) || (op >= 0x30 && op <= 0x37) || op == 0x77 || (op >= 0x80 && op <= 0x8f) || (op >= 0xa0 && op <= 0xa2) || (op >= 0xa8 && op <= 0xaa) || (op >= 0xc8 && op <= 0xcf));
  else modrm = true;
  if (!modrm) return 0;
  int m = *p++, mod = m >> 6, rm = m & 7; if (mod == 3) return 0;
  if (rm != 4) { if (mod == 0 && rm == 5) return 0; return (uint64_t)r[REG[rm | (rex & 1) << 3]]; }
  int sib = *p, idx = ((sib >> 3) & 7) | ((rex >> 1) & 1) << 3, base = (sib & 7); uint64_t a = 0; if (!(mod == 0 && base == 5)) a = (uint64_t)r[REG[base | (rex & 1) << 3]];
  bool vsib = map == 2 && ((op >= 0x90 && op <= 0x93) || (evex && op >= 0xa0 && op <= 0xa3));
  if (vsib) { const uint8_t *x = (const uint8_t *)u->uc_mcontext.fpregs; uint64_t h = 1; for (int k = 0; k < 2; k++) { uint64_t w; memcpy(&w, x + 160 + 16 * idx + 8 * k, 8); h = pbt::mix(h, w); memcpy(&w, x + 576 + 16 * idx + 8 * k, 8); h = pbt::mix(h, w); } return a + h; }
  if (idx != 4) a += (uint64_t)r[REG[idx]] << (sib >> 6);
  return a;
}
static void on_trap(int, siginfo_t *, void *v) { const ucontext_t *u = (const ucontext_t *)v; const greg_t *r = u->uc_mcontext.gregs; if (on) event((uint64_t)r[REG_RIP], operand((const uint8_t *)r[REG_RIP], r, u)); }
static void arm() { static uint8_t alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr); struct sigaction sa{}; sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGTRAP, &sa, nullptr); }
__attribute__((noinline)) static void start_trace() { pos = 0; on = true; asm volatile("leaq -256(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; leaq 256(%%rsp),%%rsp" ::: "memory", "cc"); }
__attribute__((noinline)) static void stop_trace() { asm volatile("leaq -256(%%rsp),%%rsp; pushfq; andq $-257,(%%rsp); popfq; leaq 256(%%rsp),%%rsp" ::: "memory", "cc"); on = false; }
#endif
// ---------------------------------------------------------------- secret-key operations
enum { NOP = 13 };
static const char *OPN[NOP] = {"X25519.keygen", "X25519.shared", "X25519_x64.shared", "X448.keygen", "X448.shared", "Ed25519.keygen", "Ed25519.Pure.sign", "Ed25519.Context.sign", "Ed25519.PreHash.sign", "Ed448.keygen", "Ed448.PureContext.sign", "Ed448.PreHash.sign", "X25519_x64.keygen"};
static size_t keysize(int o) { return o < 3 || o == 12 ? 32 : o < 5 ? 56 : o < 9 ? 32 : 57; }
struct Public { int op; Bytes peer, pk, m, cx; };
alignas(64) static uint8_t KEY[64], OUTB[128], PEER[64], PK[64], MSG[4096], CTX[256];
static void perform(const Public &u) {
  switch (u.op) {
    case 0: X25519.keygen(OUTB, KEY); break; case 12: X25519_x64.keygen(OUTB, KEY); break; case 1: X25519.shared(OUTB, PEER, KEY); break; case 2: X25519_x64.shared(OUTB, PEER, KEY); break; case 3: X448.keygen(OUTB, KEY); break; case 4: X448.shared(OUTB, PEER, KEY); break;
    case 5: Ed25519.Pure.keygen(OUTB, KEY); break; case 9: Ed448.PureContext.keygen(OUTB, KEY); break;
    default: { const Scheme &S = SCH[u.op < 9 ? u.op - 6 : u.op - 7]; S.sign(OUTB, MSG, u.m.size(), CTX, u.cx.size(), PK, KEY); }
  }
}
// run in a child forked from this very state, so that heap, stack and libraries are where they were for every other key
static void traced(Ctx &c, const Public &u, const Bytes &key, bool compare) {
  T->done = 0; T->differs = 0; fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) c.fail("fork failed");
  if (!pid) {
    comparing = compare; arm(); memset(KEY, 0x42, sizeof KEY); memset(OUTB, 0, sizeof OUTB); perform(u);                 // the same call with a fixed key first
    memcpy(KEY, key.data(), key.size()); memset(OUTB, 0, sizeof OUTB); start_trace(); perform(u); stop_trace(); if (compare) { if (!T->differs && pos != T->n) { T->differs = 1; T->diff = pos; T->got_pc = T->got_addr = 0; } } else T->n = pos; T->done = 1; _exit(0);
  }
  int st; waitpid(pid, &st, 0); if (!T->done) c.fail("%s: the traced call did not return (status %d)", OPN[u.op], st);
}
static std::string where(uint64_t pc) { Dl_info d; char b[256]; if (pc && dladdr((void *)pc, &d) && d.dli_fname) { const char *f = strrchr(d.dli_fname, '/'); snprintf(b, sizeof b, "%s+0x%lx%s%s", f ? f + 1 : d.dli_fname, (unsigned long)(pc - (uint64_t)d.dli_fbase), d.dli_sname ? " in " : "", d.dli_sname ? d.dli_sname : ""); } else snprintf(b, sizeof b, "0x%lx", (unsigned long)pc); return b; }
static Bytes secret(Src &s, size_t n, const Bytes *near) {
  Bytes k(n);
  switch (s.below(near ? 7 : 5)) {
    case 4: if (n != 57) { gen::digit_key(s, k.data(), n); break; } gen::structured(s, k.data(), n); break;
    case 0: case 1: s.bytes(k.data(), n); break; case 2: gen::structured(s, k.data(), n); break;
    case 3: { memset(k.data(), s.flip() ? 0xff : 0, n); break; }
    default: { k = *near; int f = 1 + (int)s.below(3); while (f--) k[s.below(n)] ^= (uint8_t)(1 << s.below(8)); }                         // a few bits away
  }
  return k;
}
static void independent(Src &s, Ctx &c, int op, unsigned others) {
  if (!T) T = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Public u; u.op = op; size_t n = keysize(op); std::string cls;
  if (op == 1 || op == 2) { u.peer.resize(32); gen::peer25519(s, u.peer.data(), &cls); } else if (op == 4) { u.peer.resize(56); gen::peer448(s, u.peer.data(), &cls); }
  if (op >= 6 && op != 9 && op != 12) { u.pk.resize(n); s.bytes(u.pk.data(), n); u.m = gen::message(s, s.below(s.chance(20) ? 600 : 80)); if (op != 6) u.cx = gen::message(s, s.below(s.chance(20) ? 256 : 16)); }
  memset(PEER, 0, sizeof PEER); memset(PK, 0, sizeof PK); if (!u.peer.empty()) memcpy(PEER, u.peer.data(), u.peer.size()); if (!u.pk.empty()) memcpy(PK, u.pk.data(), u.pk.size()); if (!u.m.empty()) memcpy(MSG, u.m.data(), u.m.size()); if (!u.cx.empty()) memcpy(CTX, u.cx.data(), u.cx.size());
  c.note("%s", OPN[op]); c.label(OPN[op]); if (!u.peer.empty()) c.hex("peer value", u.peer.data(), u.peer.size()); if (!u.pk.empty()) c.hex("public key operand", u.pk.data(), u.pk.size()); if (!u.m.empty()) c.hex("message", u.m.data(), u.m.size()); if (!u.cx.empty()) c.hex("context", u.cx.data(), u.cx.size());
  Bytes a = secret(s, n, nullptr); traced(c, u, a, false); if (T->n > CAP) c.fail("trace longer than %zu events", CAP); if (T->n < 100) c.fail("the trace has only %lu events", (unsigned long)T->n); bool all = true;
  for (unsigned i = 0; i < others; i++) {
    Bytes b = secret(s, n, &a); all &= a != b; traced(c, u, b, true);
    if (T->differs) { uint64_t d = T->diff; std::string prev = d ? where(T->e[d - 1].pc) : "the start"; c.hex("first private key", a.data(), n); c.hex("other private key", b.data(), n);
      bool branch = d >= T->n || T->got_pc != T->e[d].pc; if (!branch) { uint64_t g = T->got_addr, e = T->e[d].addr; c.fail("%s: memory address depends on the private key at step %lu (%s): addresses differ by %ld bytes", OPN[op], (unsigned long)d, where(T->got_pc).c_str(), (long)(g - e)); }
      c.fail("%s: control flow depends on the private key at step %lu: after %s one key goes to %s, the other to %s", OPN[op], (unsigned long)d, prev.c_str(), d < T->n ? where(T->e[d].pc).c_str() : "the end", T->got_pc ? where(T->got_pc).c_str() : "the end"); }
  }
  c.nontrivial(all); c.note("%lu events in the trace", (unsigned long)T->n);
}
#ifdef COV
#define OPS(id, op, q, t) SUBX(id, q, t, "all private keys differ", 120, 0, 0) { independent(s, c, op, 6); }
OPS(x25519_keygen, 0, 8000, 200000) OPS(x25519_shared, 1, 8000, 200000) OPS(x64_shared, 2, 8000, 200000) OPS(x448_keygen, 3, 6000, 150000) OPS(x448_shared, 4, 6000, 150000) OPS(ed25519_keygen, 5, 8000, 200000) OPS(ed25519_sign, 6, 8000, 200000) OPS(ed25519ctx_sign, 7, 3000, 100000) OPS(ed25519ph_sign, 8, 3000, 100000) OPS(ed448_keygen, 9, 6000, 150000) OPS(ed448_sign, 10, 6000, 150000) OPS(ed448ph_sign, 11, 3000, 100000)
#else
#define OPS(id, op, q, t) SUBX(id, q, t, "all private keys differ", 300, 0, 0) { independent(s, c, op, c.thorough ? 3 : 1); }
OPS(x25519_keygen, 0, 16, 600) OPS(x25519_shared, 1, 8, 300) OPS(x64_shared, 2, 8, 300) OPS(x448_keygen, 3, 8, 300) OPS(x448_shared, 4, 8, 120) OPS(ed25519_keygen, 5, 16, 600) OPS(ed25519_sign, 6, 16, 600) OPS(ed25519ctx_sign, 7, 8, 300) OPS(ed25519ph_sign, 8, 8, 300) OPS(ed448_keygen, 9, 8, 300) OPS(ed448_sign, 10, 8, 300) OPS(ed448ph_sign, 11, 8, 150) OPS(x64_keygen, 12, 8, 200)
#endif
