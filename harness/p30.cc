// Machine state around a call: registers, control words and flags that belong to the caller survive every operation, and the results
// depend neither on the rounding modes in force nor on where the stack is. This file is compiled without the callee-saved registers
// (-ffixed-...), so what the library leaves in them is seen as it is.
#include "calls.h"
struct Probe { uint64_t before[6], after[6], rsp0, rsp1, flags, saved, shift; void (*f)(void *); void *arg; uint32_t mxcsr, mxcsr_after, own_mxcsr, pad; uint16_t cw, cw_after, own_cw, pad2; uint8_t env[32]; };
extern "C" { Probe pbt_probe_state; void pbt_probe(void); }
asm(R"(
  .text
  .globl pbt_probe
  .type pbt_probe, @function
pbt_probe:
  pushq %rbx
  pushq %rbp
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  pushq %rax
  leaq pbt_probe_state(%rip), %rax
  movq %rsp, 120(%rax)
  stmxcsr 160(%rax)
  fnstcw 172(%rax)
  ldmxcsr 152(%rax)
  fldcw 168(%rax)
  subq 128(%rax), %rsp
  movq %rsp, 96(%rax)
  movq 0(%rax), %rbx
  movq 8(%rax), %rbp
  movq 16(%rax), %r12
  movq 24(%rax), %r13
  movq 32(%rax), %r14
  movq 40(%rax), %r15
  movq 144(%rax), %rdi
  callq *136(%rax)
  leaq pbt_probe_state(%rip), %rax
  movq %rsp, 104(%rax)
  movq %rbx, 48(%rax)
  movq %rbp, 56(%rax)
  movq %r12, 64(%rax)
  movq %r13, 72(%rax)
  movq %r14, 80(%rax)
  movq %r15, 88(%rax)
  movq 120(%rax), %rsp
  pushfq
  popq 112(%rax)
  cld
  stmxcsr 156(%rax)
  fnstcw 170(%rax)
  fnstenv 176(%rax)
  fninit
  fldcw 172(%rax)
  ldmxcsr 160(%rax)
  popq %rax
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbp
  popq %rbx
  ret
  .size pbt_probe, .-pbt_probe
)");
static_assert(offsetof(Probe, rsp0) == 96 && offsetof(Probe, flags) == 112 && offsetof(Probe, saved) == 120 && offsetof(Probe, f) == 136 && offsetof(Probe, mxcsr) == 152 && offsetof(Probe, cw) == 168 && offsetof(Probe, env) == 176, "layout");
static struct { const Call *k; uint8_t *const *p; long long r; } J;
__attribute__((noinline)) static void thunk(void *) { J.r = J.k->f(J.p); }
static const uint8_t *canon(const Arg &a, const uint8_t *p, Bytes &tmp, size_t &n) {
  if (a.residues) { tmp = a.residues(p); n = tmp.size(); return tmp.data(); }
  n = a.cmp; if (!a.kind) return p;
  tmp.assign(p, p + n); size_t fb = a.kind == 1 ? 32 : 56;
  for (size_t i = 0; i + fb <= n; i += fb) { uint64_t w[7]; memcpy(w, &tmp[i], fb); if (a.kind == 1) { ref::fe25 f = ref::fe25::words(w, 4); memcpy(&tmp[i], f.v, fb); } else { ref::fe448 f = ref::fe448::words(w, 7); memcpy(&tmp[i], f.v, fb); } }
  return tmp.data();
}
static void run(Src &s, Ctx &c, const Call &k) {
  size_t n = k.a.size(); c.note("%s", k.name.c_str()); c.label(k.name); c.nontrivial(true);
  for (size_t i = 0; i < n; i++) if (k.a[i].role != OUT) { char t[32]; snprintf(t, sizeof t, "argument %zu", i); c.hex(t, k.a[i].init.data(), k.a[i].n > 512 ? 64 : k.a[i].n); }
  static std::vector<uint8_t> A(8 * 24576), B(8 * 24576); uint8_t *p[8], *q[8], *x = (uint8_t *)(((uintptr_t)A.data() + 63) & ~(uintptr_t)63), *y = (uint8_t *)(((uintptr_t)B.data() + 63) & ~(uintptr_t)63);
  for (size_t i = 0; i < n; i++) { const Arg &a = k.a[i]; p[i] = x; q[i] = y; x += (a.n + 127) & ~(size_t)63; y += (a.n + 127) & ~(size_t)63; memset(p[i], 0x5a, a.n + 64); memset(q[i], 0x5a, a.n + 64); if (a.role != OUT && a.n) { memcpy(p[i], a.init.data(), a.n); memcpy(q[i], a.init.data(), a.n); } }
  long long r0 = invoke(k, p, 0x11);
  Probe &P = pbt_probe_state; memset(&P, 0, sizeof P); for (auto &b : P.before) b = s.u64();
  // rounding mode, flush-to-zero and denormals-are-zero; x87 rounding and precision: exceptions stay masked
  P.mxcsr = 0x1f80 | (uint32_t)s.below(4) << 13 | (uint32_t)s.below(2) << 15 | (uint32_t)s.below(2) << 6; static const unsigned pc[] = {3, 2, 0}; P.cw = (uint16_t)(0x007f | s.below(4) << 10 | pc[s.below(3)] << 8); P.shift = 16 * s.below(64);
  P.f = thunk; P.arg = nullptr; J.k = &k; J.p = q; c.note("mxcsr %04x, x87 control word %04x, stack moved by %lu", P.mxcsr, P.cw, (unsigned long)P.shift);
  stack_junk(0x77); pbt_probe(); long long r1 = J.r;
  static const char *rn[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"}; const char *nm = k.name.c_str();
  if (P.rsp0 != P.rsp1) c.fail("%s: the stack pointer moved by %ld bytes", nm, (long)(P.rsp1 - P.rsp0));
  for (int i = 0; i < 6; i++) if (P.before[i] != P.after[i]) c.fail("%s: register %s held %016lx before the call and %016lx after it", nm, rn[i], (unsigned long)P.before[i], (unsigned long)P.after[i]);
  if ((P.mxcsr ^ P.mxcsr_after) & 0xffc0) c.fail("%s: MXCSR controls were %04x before and %04x after", nm, P.mxcsr & 0xffc0, P.mxcsr_after & 0xffc0);
  if (P.cw != P.cw_after) c.fail("%s: x87 control word was %04x before and %04x after", nm, P.cw, P.cw_after);
  uint16_t tag; memcpy(&tag, P.env + 8, 2); if (tag != 0xffff) c.fail("%s: the x87/MMX register stack is not empty after the call (tag word %04x)", nm, tag);
  if (P.flags & 0x400) c.fail("%s: the direction flag is set after the call", nm); if (P.flags & 0x40000) c.fail("%s: the alignment-check flag is set after the call", nm);
  if (r0 != r1) c.fail("%s: returned %lld, and %lld under these control words and this stack position", nm, r0, r1);
  for (size_t i = 0; i < n; i++) { if (k.a[i].role == IN) continue; Bytes t0, t1; size_t n0, n1; const uint8_t *a = canon(k.a[i], p[i], t0, n0), *b = canon(k.a[i], q[i], t1, n1); if (k.may_refuse && r0 == 5) continue; if (n0 != n1 || memcmp(a, b, n0)) c.fail("%s: another result (argument %zu) under these control words and this stack position\n  first  %s\n  second %s", nm, i, pbt::tohex(a, n0).c_str(), pbt::tohex(b, n1).c_str()); }
}
SUB(agreement, 120000, 1500000, "every call") { call_agreement(s, [&](const Call &k) { run(s, c, k); }); }
SUB(signatures, 120000, 1200000, "every call") { call_signatures(s, [&](const Call &k) { run(s, c, k); }); }
SUB(hashes, 200000, 4000000, "every call") { call_hashes(s, [&](const Call &k) { run(s, c, k); }); }
SUB(curve, 100000, 1000000, "every call") { call_curve(s, [&](const Call &k) { run(s, c, k); }); }
SUB(reduced, 1200000, 12000000, "every call") { call_reduced(s, [&](const Call &k) { run(s, c, k); }); }
SUB(full, 2000000, 20000000, "every call") { call_full(s, [&](const Call &k) { run(s, c, k); }); }
