// Statelessness: the same call gives the same bytes in every history (other orders, repetitions, near-duplicate calls before it, other
// stack, register and output garbage, other addresses) and while other threads run other calls.
#include "calls.h"
#include <thread>
#include <atomic>
#include <memory>
static const unsigned NGEN = 6;
static void any_call(Src &s, unsigned g, const Sink &k) { switch (g) { case 0: call_agreement(s, k); break; case 1: call_signatures(s, k); break; case 2: call_hashes(s, k); break; case 3: call_curve(s, k); break; case 4: call_reduced(s, k); break; default: call_full(s, k); } }
static unsigned family(Src &s) { static const unsigned w[] = {0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5}; return w[s.below(11)]; }
struct Room {      // buffers of one executing thread
  std::vector<uint8_t> mem; uint8_t *base; Room() : mem(96 * 1024 + 64) { base = (uint8_t *)(((uintptr_t)mem.data() + 63) & ~(uintptr_t)63); }
};
struct Result { long long ret; std::vector<Bytes> out; };
static Result execute(const Call &k, Room &r, size_t shift, uint8_t junk) {
  uint8_t *p[8], *q = r.base + 32 * shift; size_t n = k.a.size();
  for (size_t i = 0; i < n; i++) { const Arg &a = k.a[i]; p[i] = a.align > 1 ? q : q + shift % 7; memset(q, junk, a.n + 64); if (a.role != OUT && a.n) memcpy(p[i], a.init.data(), a.n); q += (a.n + 127) & ~(size_t)63; if (q > r.base + 96 * 1024) abort(); }
  Result R; R.ret = invoke(k, p, junk); bool refused = k.may_refuse && R.ret == 5;
  for (size_t i = 0; i < n; i++) R.out.push_back(k.a[i].role == IN || refused ? Bytes() : Bytes(p[i], p[i] + k.a[i].cmp)); return R;
}
static void differ(Ctx &c, const char *how, const Call &k, size_t idx, const Result &a, const Result &b) {
  if (a.ret != b.ret) c.fail("call %zu (%s) returned %lld first and %lld %s", idx, k.name.c_str(), a.ret, b.ret, how);
  for (size_t i = 0; i < a.out.size(); i++) if (a.out[i] != b.out[i]) c.fail("call %zu (%s), argument %zu: other bytes %s\n  first %s\n  now   %s", idx, k.name.c_str(), i, how, pbt::tohex(a.out[i].data(), a.out[i].size()).c_str(), pbt::tohex(b.out[i].data(), b.out[i].size()).c_str());
}
static void list_calls(Ctx &c, const std::vector<Call> &v) { std::string t; for (auto &k : v) t += (t.empty() ? "" : ", ") + k.name; c.note("calls: %s", t.c_str()); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].a.size(); j++) if (v[i].a[j].role != OUT) { char n[48]; snprintf(n, sizeof n, "call %zu argument %zu", i, j); c.hex(n, v[i].a[j].init.data(), v[i].a[j].n > 128 ? 128 : v[i].a[j].n); } }
// an earlier call again, with a few bits of byte-string inputs changed (same function, same lengths)
static bool near_duplicate(Src &s, const Call &k, Call &o) {
  o = k; bool any = false; int n = 1 + (int)s.below(2);
  while (n--) { size_t i = s.below(o.a.size()); Arg &a = o.a[i]; if (a.role == OUT || !a.n || a.align > 1) continue; size_t at; switch (s.below(4)) { case 0: at = a.n - 1 - s.below(a.n < 8 ? a.n : 8); break; case 1: at = s.below(a.n < 8 ? a.n : 8); break; default: at = s.below(a.n); } a.init[at] ^= (uint8_t)(1u << s.below(8)); any = true; }
  return any;
}
static std::vector<Call> make_calls(Src &s, size_t n, bool same_family) {
  std::vector<Call> v; unsigned g = family(s); auto add = [&](const Call &k) { size_t t = 0; for (auto &a : k.a) t += a.n + 192; if (t < 80 * 1024) v.push_back(k); };
  while (v.size() < n) { Call o; if (!v.empty() && s.below(3) && near_duplicate(s, v[s.below(v.size())], o)) add(o); else { if (!same_family) g = family(s); any_call(s, g, add); if (v.empty()) s.discard(); } }
  return v;
}
SUB(history, 60000, 3000000, "at least three calls, two of them alike") {
  size_t n = 2 + s.below(4); bool same = s.flip(); std::vector<Call> v = make_calls(s, n, same); static Room r; std::vector<Result> R; list_calls(c, v); std::map<std::string, int> kinds; bool alike = false; for (auto &k : v) alike |= ++kinds[k.name] > 1; c.nontrivial(alike && n > 2);
  for (auto &k : v) { c.label(k.name); R.push_back(execute(k, r, s.below(8), 0)); }
  std::string how; size_t len = n + s.below(2 * n), prev = n;
  for (size_t t = 0; t < len; t++) { size_t i = t < n ? n - 1 - t : s.below(n); uint8_t junk = (uint8_t)(0x11 * (1 + s.below(15))); size_t shift = s.below(8); how = "after call " + (prev < n ? std::to_string(prev) : std::string("list")); Result q = execute(v[i], r, shift, junk); differ(c, how.c_str(), v[i], i, R[i], q); prev = i; }
}
// one call made again hundreds to tens of thousands of times (so that counters, caches and tables that fill up come to their end)
SUB(repeated, 4000, 100000, "every call repeated to the end") {
  static const unsigned N[] = {1100, 560, 2100, 1100, 70000, 70000}; unsigned g = s.below(2) ? (unsigned)s.below(4) : (unsigned)s.below(6); size_t n = s.below(3) ? N[g] / 4 : N[g]; std::vector<Call> v; auto add = [&](const Call &k) { size_t t = 0; for (auto &a : k.a) t += a.n + 192; if (t < 80 * 1024) v.push_back(k); };
  any_call(s, g, add); if (v.empty()) s.discard(); const Call &k = v[0]; static Room r; list_calls(c, v); c.label(k.name); c.note("%zu times", n); Result R = execute(k, r, 0, 0x5a); c.nontrivial(true);
  std::vector<uint8_t *> p(8); uint8_t *q = r.base; for (size_t i = 0; i < k.a.size(); i++) { const Arg &a = k.a[i]; p[i] = q; memset(q, 0, a.n + 64); if (a.role != OUT && a.n) memcpy(q, a.init.data(), a.n); q += (a.n + 127) & ~(size_t)63; }
  bool refused = k.may_refuse && R.ret == 5; uint8_t flip = 0;
  for (size_t t = 0; t < n; t++) {
    for (size_t i = 0; i < k.a.size(); i++) if (k.a[i].role == IO && k.a[i].n) memcpy(p[i], k.a[i].init.data(), k.a[i].n); else if (k.a[i].role == OUT && k.a[i].n) p[i][t % k.a[i].n] ^= ++flip;
    long long ret = k.f(p.data()); bool same = ret == R.ret; for (size_t i = 0; same && !refused && i < k.a.size(); i++) if (k.a[i].role != IN) same = !k.a[i].cmp || !memcmp(p[i], R.out[i].data(), k.a[i].cmp);
    if (!same) { Result q2; q2.ret = ret; for (size_t i = 0; i < k.a.size(); i++) q2.out.push_back(k.a[i].role == IN || refused ? Bytes() : Bytes(p[i], p[i] + k.a[i].cmp)); char how[64]; snprintf(how, sizeof how, "after %zu repetitions", t); differ(c, how, k, 0, R, q2); c.fail("another result %s", how); }
  }
}
// incremental hash contexts advanced in turns
namespace { struct Stream { int kind; Bytes m; size_t at = 0, rate; sph_sha512_context h5; sph_sha384_context h3; hashState k; }; }
SUB(interleaved, 60000, 3000000, "two or more contexts of which two are of the same kind of hash") {
  size_t n = 2 + s.below(3); std::vector<std::unique_ptr<Stream>> S; int base = (int)s.below(8); bool alike = s.flip();
  for (size_t i = 0; i < n; i++) { S.emplace_back(new Stream); Stream &x = *S.back(); x.kind = alike ? base : (int)s.below(8); static const int bits[] = {0, 0, 128, 256, 224, 256, 384, 512}; x.m = msg(s, x.kind < 2 ? 128 : 136, 900); if (x.kind == 0) sph_sha512_init(&x.h5); else if (x.kind == 1) sph_sha384_init(&x.h3); else Init(&x.k, bits[x.kind]); c.note("context %zu: kind %d, %zu bytes", i, x.kind, x.m.size()); c.hex("message", x.m.data(), x.m.size()); }
  std::set<int> ks; for (auto &x : S) ks.insert(x->kind < 2 ? 0 : 1); c.nontrivial(n > ks.size());
  std::vector<size_t> live; for (size_t i = 0; i < n; i++) live.push_back(i);
  while (!live.empty()) {
    size_t j = s.below(live.size()); Stream &x = *S[live[j]]; size_t left = x.m.size() - x.at, k = s.flip() ? s.below(left + 1) : (left < 150 ? left : s.below(150)); uint8_t *p = x.m.data() + x.at;
    if (x.kind == 0) sph_sha512(&x.h5, p, k); else if (x.kind == 1) sph_sha384(&x.h3, p, k); else Update(&x.k, p, (DataLength)k * 8);
    x.at += k; if (x.at < x.m.size() || s.flip()) continue;
    uint8_t d[200]; Bytes e; size_t on = 64;
    switch (x.kind) { case 0: sph_sha512_close(&x.h5, d); e = ref::sha512(x.m); break; case 1: sph_sha384_close(&x.h3, d); e = ref::sha2_64(384, x.m.data(), x.m.size()); on = 48; break; case 2: on = 1 + s.below(199); Final2(&x.k, d, (unsigned)on); e = ref::shake128(x.m, on); break; case 3: on = 1 + s.below(199); Final2(&x.k, d, (unsigned)on); e = ref::shake256(x.m, on); break;
      default: { static const int bits[] = {224, 256, 384, 512}; int b = bits[x.kind - 4]; on = b / 8; Final(&x.k, d); e = ref::keccak(200 - b / 4, 6, x.m.data(), x.m.size(), b / 8); } }
    if (memcmp(d, e.data(), on)) c.fail("context %zu (kind %d): wrong digest when other contexts are advanced in between\n  got      %s\n  expected %s", live[j], x.kind, pbt::tohex(d, on).c_str(), pbt::tohex(e.data(), on).c_str());
    live.erase(live.begin() + j);
  }
}
static void concurrent(Src &s, Ctx &c, size_t ncalls, bool same, size_t nthreads, size_t rounds) {
  std::vector<Call> v = make_calls(s, ncalls, same); static Room r0; std::vector<Result> R; list_calls(c, v); c.note("%zu threads, %zu rounds", nthreads, rounds); c.nontrivial(true); for (auto &k : v) c.label(k.name);
  bool shared = s.flip(); std::vector<uint64_t> seeds(nthreads); for (auto &x : seeds) x = s.u64();
  for (auto &k : v) R.push_back(execute(k, r0, 0, 0x5a));
  std::atomic<size_t> ready{0}; std::atomic<int> bad{-1}; std::vector<Result> got(nthreads); std::vector<std::thread> T;
  for (size_t t = 0; t < nthreads; t++) T.emplace_back([&, t] {
    Room r; uint64_t st = seeds[t]; ready++; while (ready < nthreads) {}
    for (size_t k = 0; k < rounds && bad < 0; k++) { uint64_t x = pbt::splitmix(st); size_t i = shared ? (k + t) % v.size() : x % v.size(); Result q = execute(v[i], r, (x >> 32) % 8, (uint8_t)(x >> 40)); if (q.ret != R[i].ret || q.out != R[i].out) { int e = -1; if (bad.compare_exchange_strong(e, (int)(t * 64 + i))) got[t] = q; } }
  });
  for (auto &t : T) t.join();
  if (bad >= 0) { size_t t = (size_t)bad / 64, i = (size_t)bad % 64; differ(c, "while other threads ran", v[i], i, R[i], got[t]); }
}
#ifdef __SANITIZE_THREAD__
SUBX(races, 3000, 150000, "every group of concurrent calls", 120, 3, 2) { size_t n = 1 + s.below(4); bool same = s.below(4) != 0; concurrent(s, c, n, same, 4, 3 + s.below(4)); }
#else
SUBX(threads, 6000, 300000, "every group of concurrent calls", 120, 3, 2) { size_t n = 1 + s.below(4); bool same = s.below(4) != 0; concurrent(s, c, n, same, 4, 20); }
#endif
