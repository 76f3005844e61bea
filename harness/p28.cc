// Helpers around the arithmetic: allocation histories, printed text, sizes and constants, random elements, memory kept by calls
#include "calls.h"
#include <malloc.h>
#include <memory>
// ---------------------------------------------------------------- allocation histories
struct Kind { std::string name; size_t n; std::function<void *()> alloc; std::function<void(void *)> free_; };
static const std::vector<Kind> &kinds() {
  static const std::vector<Kind> v = [] {
    std::vector<Kind> v; const X_ECDH *X[] = {&X25519, &X25519_x64, &X448}; static const char *nm[] = {"X25519", "X25519_x64", "X448"};
    for (int i = 0; i < 3; i++) { const X_ECDH *x = X[i]; v.push_back({std::string(nm[i]) + ".allocKey", i == 2 ? 56u : 32u, [=] { return (void *)x->allocKey(); }, [=](void *p) { x->freeKey(p); }}); }
    for (auto &S : SCH) { const Scheme *q = &S; std::string n = S.name;
      v.push_back({n + ".allocKey", S.ks(), [=] { return (void *)(q->ps ? q->ps->allocKey() : q->cs->allocKey()); }, [=](void *p) { q->ps ? q->ps->freeKey(p) : q->cs->freeKey(p); }});
      v.push_back({n + ".allocSignature", S.ss(), [=] { return (void *)(q->ps ? q->ps->allocSignature() : q->cs->allocSignature()); }, [=](void *p) { q->ps ? q->ps->freeSignature(p) : q->cs->freeSignature(p); }}); }
    const PrimeField *F[] = {&Fp25519, &Fp448}; static const char *fn[] = {"Fp25519", "Fp448"};
    for (int i = 0; i < 2; i++) { const PrimeField *f = F[i]; std::string n = fn[i];
      v.push_back({n + " full-radix alloc", i ? sizeof(EltFp448_1w_fullradix) : sizeof(EltFp25519_1w_fullradix), [=] { return (void *)f->_1w_full.arith.misc.alloc(); }, [=](void *p) { f->_1w_full.arith.misc.free(p); }});
      v.push_back({n + " 1-way alloc", i ? sizeof(EltFp448_1w_redradix) : sizeof(EltFp25519_1w_redradix), [=] { return (void *)f->_1w_red.arith.misc.alloc(); }, [=](void *p) { f->_1w_red.arith.misc.free(p); }});
      v.push_back({n + " 2-way alloc", i ? sizeof(EltFp448_2w_redradix) : sizeof(EltFp25519_2w_redradix), [=] { return (void *)f->_2w_red.arith.misc.alloc(); }, [=](void *p) { f->_2w_red.arith.misc.free(p); }});
      v.push_back({n + " 4-way alloc", i ? sizeof(EltFp448_4w_redradix) : sizeof(EltFp25519_4w_redradix), [=] { return (void *)f->_4w_red.arith.misc.alloc(); }, [=](void *p) { f->_4w_red.arith.misc.free(p); }}); }
    return v; }();
  return v;
}
static size_t in_use() {
#ifdef ASAN
  return 0;
#else
  return mallinfo2().uordblks + mallinfo2().hblkhd;
#endif
}
struct Live { const Kind *k; uint8_t *p; uint8_t fill; };
static void contents(Ctx &c, const Live &l) { for (size_t i = 0; i < l.k->n; i++) if (l.p[i] != l.fill) c.fail("byte %zu of a live buffer (%s) changed to 0x%02x from 0x%02x", i, l.k->name.c_str(), l.p[i], l.fill); }
SUB(history, 120000, 4000000, "at least three buffers live at once and at least one freed before another allocation") {
  auto &K = kinds(); std::vector<Live> live; live.reserve(64); unsigned steps = 1 + (unsigned)s.below(40); size_t most = 0; bool mixed = false, freed = false; unsigned focus = (unsigned)s.below(K.size()); bool same = s.flip();
  size_t before = in_use();
  for (unsigned i = 0; i < steps; i++) {
    unsigned o = (unsigned)s.below(10);
    if (o < 6 && live.size() < 48) {
      const Kind &k = K[same && s.flip() ? focus : s.below(K.size())]; uint8_t *p = (uint8_t *)k.alloc(); if (!p) c.fail("%s returned a null pointer", k.name.c_str());
      if ((uintptr_t)p % 32) c.fail("%s returned %p, not aligned to 32 bytes", k.name.c_str(), (void *)p);
      for (auto &l : live) if (p < l.p + l.k->n && l.p < p + k.n) c.fail("%s returned a buffer overlapping a live one from %s", k.name.c_str(), l.k->name.c_str());
      uint8_t f = (uint8_t)(1 + s.below(255)); memset(p, f, k.n); live.push_back({&k, p, f}); if (freed) mixed = true;
    } else if (o < 9 && !live.empty()) {
      size_t j = s.below(live.size()); contents(c, live[j]);
      live[j].k->free_(live[j].p); live.erase(live.begin() + j); freed = true;
    } else K[s.below(K.size())].free_(nullptr);
    if (live.size() > most) most = live.size();
    for (auto &l : live) contents(c, l);
  }
  size_t last = live.size();
  while (!live.empty()) { contents(c, live.back()); live.back().k->free_(live.back().p); live.pop_back(); }
  size_t after = in_use(); c.note("%u steps, %zu buffers live at the end, at most %zu at once", steps, last, most); if (after > before) c.fail("%zu bytes of heap still in use after everything was freed", after - before);
  c.nontrivial(most >= 3 && mixed); c.label(most >= 10 ? "ten or more live" : most >= 3 ? "three to nine live" : "fewer than three live");
}
// a buffer from one allocator is used by the operations it is meant for: every vector store of the element must fit
SUB(usable, 60000, 2000000, "every case") {
  int field = (int)s.below(2), lanes = 1 << s.below(3); const Impl &I = *impls(field, lanes); const PrimeField &F = field ? Fp448 : Fp25519; auto &K = kinds(); const Kind &k = K[13 + 4 * field + (lanes == 1 ? 1 : lanes == 2 ? 2 : 3)];
  uint8_t *a = (uint8_t *)k.alloc(), *b = (uint8_t *)k.alloc(), *r = (uint8_t *)k.alloc(); c.check(a && b && r, "null pointer"); uint8_t x[224], y[224], z[224]; s.bulk(x, lanes * I.fb); s.bulk(y, lanes * I.fb); c.note("%s", k.name.c_str()); c.nontrivial(true); c.label(k.name);
  memset(a, 0xff, k.n); memset(b, 0xff, k.n); memset(r, 0xff, k.n); I.unser(a, x); I.unser(b, y); I.mul(r, a, b); I.ser(z, r);
  for (int l = 0; l < lanes; l++) { uint8_t e[56]; if (field) { auto f = ref::Fe<ref::F448>::bytes(x + 56 * l) * ref::Fe<ref::F448>::bytes(y + 56 * l); f.out(e); } else { auto f = ref::Fe<ref::F25>::bytes(x + 32 * l) * ref::Fe<ref::F25>::bytes(y + 32 * l); f.out(e); } c.eq("product in allocated elements", z + I.fb * l, e, I.fb); }
  I.copy(r, a); I.ser(z, r); uint8_t w[224]; I.ser(w, a); c.eq("copied element", z, w, lanes * I.fb); I.zero(r); I.ser(z, r); for (int i = 0; i < lanes * I.fb; i++) if (z[i]) c.fail("zero is not zero"); (void)F;
  k.free_(r); k.free_(a); k.free_(b);
}
// ---------------------------------------------------------------- printing
struct Out {
  std::string got, prefix; FILE *f;
  static ssize_t put(void *o, const char *p, size_t n) { ((Out *)o)->got.append(p, n); return (ssize_t)n; }
  explicit Out(Src &s) { cookie_io_functions_t io{}; io.write = put; f = fopencookie(this, "w", io); static char small[16]; switch (s.below(4)) { case 1: setvbuf(f, nullptr, _IONBF, 0); break; case 2: setvbuf(f, nullptr, _IOLBF, 0); break; case 3: setvbuf(f, small, _IOFBF, sizeof small); break; } unsigned k = (unsigned)s.below(4); while (k--) prefix += "0x" + std::to_string(s.below(1000)) + "\n"; fputs(prefix.c_str(), f); }
  Out(const Out &) = delete; ~Out() { if (f) fclose(f); }
  std::string text(Ctx &c) { fclose(f); f = nullptr; if (got.compare(0, prefix.size(), prefix)) c.fail("text already in the file was changed"); return got.substr(prefix.size()); }
};
// the hexadecimal numbers in the text, little-endian bytes
static std::vector<Bytes> numbers(Ctx &c, const std::string &t, std::string *rest = nullptr) {
  std::vector<Bytes> v; size_t i = 0;
  while (i < t.size()) {
    if (t[i] == '0' && i + 1 < t.size() && (t[i + 1] == 'x' || t[i + 1] == 'X')) {
      size_t j = i + 2; while (j < t.size() && isxdigit((unsigned char)t[j])) j++; std::string h = t.substr(i + 2, j - i - 2); if (h.size() % 2) c.fail("odd number of digits printed: %s", h.c_str());
      if (j < t.size() && t[j] != '\n') c.fail("a printed number is followed by '%c'", t[j]); if (j == t.size()) c.fail("a printed number does not end its line");
      Bytes b(h.size() / 2); for (size_t k = 0; k < b.size(); k++) b[b.size() - 1 - k] = (uint8_t)std::stoul(h.substr(2 * k, 2), nullptr, 16); v.push_back(b); i = j;
    } else { if (rest) *rest += t[i]; i++; }
  }
  return v;
}
static void expect(Ctx &c, const std::string &t, const std::vector<Bytes> &e) {
  auto v = numbers(c, t); if (v.size() != e.size()) c.fail("%zu numbers printed for %zu values: %s", v.size(), e.size(), t.c_str());
  for (size_t i = 0; i < e.size(); i++) if (v[i] != e[i]) c.fail("printed value %zu parses back to\n  %s\nfor\n  %s", i, pbt::tohex(v[i].data(), v[i].size()).c_str(), pbt::tohex(e[i].data(), e[i].size()).c_str());
}
SUB(print_bytes, 300000, 8000000, "every case") {
  unsigned i = (unsigned)s.below(13); Bytes b; std::string nm; std::function<void(FILE *, uint8_t *)> f;
  if (i < 3) { const X_ECDH *X = i == 0 ? &X25519 : i == 1 ? &X25519_x64 : &X448; b = rb(s, i == 2 ? 56 : 32); nm = i == 0 ? "X25519.printKey" : i == 1 ? "X25519_x64.printKey" : "X448.printKey"; f = X->printKey; }
  else { const Scheme &S = SCH[(i - 3) / 2]; bool sig = (i - 3) % 2; b = rb(s, sig ? S.ss() : S.ks()); nm = std::string(S.name) + (sig ? ".printSignature" : ".printKey"); if (sig) f = S.ps ? S.ps->printSignature : S.cs->printSignature; else f = S.ps ? S.ps->printKey : S.cs->printKey; }
  c.note("%s", nm.c_str()); c.label(nm); c.hex("bytes", b.data(), b.size()); c.nontrivial(true); Out o(s); unsigned times = 1 + (unsigned)s.below(2); Bytes copy = b; for (unsigned k = 0; k < times; k++) f(o.f, b.data()); std::string t = o.text(c);
  c.check(b == copy, "printing changed the bytes"); expect(c, t, std::vector<Bytes>(times, copy)); std::string rest; numbers(c, t, &rest); for (char ch : rest) if (ch != '\n') c.fail("unexpected text printed: %s", t.c_str());
}
SUB(print_elements, 300000, 8000000, "every case") {
  int field = (int)s.below(2), w = (int)s.below(4); const PrimeField &F = field ? Fp448 : Fp25519; size_t fb = field ? 56 : 32; Out o(s); std::vector<Bytes> e; c.nontrivial(true);
  c.label(std::string(field ? "Fp448 " : "Fp25519 ") + (w == 0 ? "full radix" : w == 1 ? "1-way" : w == 2 ? "2-way" : "4-way"));
  if (w == 0) { alignas(32) uint64_t x[7]; if (field) gen::int448(s, x); else gen::int256(s, x); Bytes b = words(x, fb); c.hex("words", x, fb); F._1w_full.arith.misc.print(o.f, x); std::string t = o.text(c); auto v = numbers(c, t); if (v.size() != 1 || v[0].size() != fb) c.fail("printed: %s", t.c_str());
    if (field) { if (ref::Fe<ref::F448>::bytes(v[0].data()) != ref::Fe<ref::F448>::bytes(b.data())) c.fail("printed residue differs: %s", t.c_str()); } else if (ref::Fe<ref::F25>::bytes(v[0].data()) != ref::Fe<ref::F25>::bytes(b.data())) c.fail("printed residue differs: %s", t.c_str());
    if (memcmp(x, b.data(), fb)) c.fail("printing changed the element"); return; }
  int lanes = w == 1 ? 1 : w == 2 ? 2 : 4; const Impl &I = *impls(field, lanes); alignas(32) uint8_t b[224], b2[224]; Elt x(I.bytes), y(I.bytes);
  for (int l = 0; l < lanes; l++) { uint64_t u[7]; if (field) gen::int448(s, u); else gen::int256(s, u); memcpy(b + l * fb, u, fb); } I.unser(x.p(), b); c.hex("values", b, lanes * fb);
  int op = (int)s.below(3); if (op) { s.bulk(b2, lanes * fb); I.unser(y.p(), b2); if (op == 1) I.add(x.p(), x.p(), y.p()); else I.sub(x.p(), x.p(), y.p()); c.note("then %s", op == 1 ? "added to" : "less"); c.hex("values", b2, lanes * fb); }
  for (int l = 0; l < lanes; l++) { Bytes r(fb); if (field) { typedef ref::Fe<ref::F448> fe; fe a = fe::bytes(b + l * fb), d = op ? fe::bytes(b2 + l * fb) : fe::zero(); (op == 1 ? a + d : op == 2 ? a - d : a).out(r.data()); } else { typedef ref::Fe<ref::F25> fe; fe a = fe::bytes(b + l * fb), d = op ? fe::bytes(b2 + l * fb) : fe::zero(); (op == 1 ? a + d : op == 2 ? a - d : a).out(r.data()); } e.push_back(r); }
  Bytes before = words(x.p(), I.bytes);
  if (lanes == 1) F._1w_red.arith.misc.print(o.f, (uint64_t *)x.p()); else if (lanes == 2) F._2w_red.arith.misc.print(o.f, (__m256i *)x.p()); else F._4w_red.arith.misc.print(o.f, (__m256i *)x.p());
  expect(c, o.text(c), e); if (memcmp(x.p(), before.data(), I.bytes)) c.fail("printing changed the element"); c.check(x.intact(), "memory around the element was written");
}
SUB(print_points, 60000, 2000000, "every case") {
  Point P; alignas(32) uint64_t u[4]; c.nontrivial(true);
  if (s.chance(30)) { Bytes m = gen::message(s, s.below(40)); h2c25519_x64(&P, m.data(), m.size()); c.label("hashed"); } else { gen::int256(s, u); memcpy(P.X, u, 32); gen::int256(s, u); memcpy(P.Y, u, 32); c.label("any coordinates"); }
  Bytes x = words(P.X, 32), y = words(P.Y, 32), all = words(&P, sizeof P); c.hex("X", x.data(), 32); c.hex("Y", y.data(), 32); Out o(s); print_point(o.f, &P); std::string t = o.text(c); c.check(all == words(&P, sizeof P), "printing changed the point");
  size_t ix = t.find('X'), iy = t.find('Y'); if (ix == std::string::npos || iy == std::string::npos || ix > iy) c.fail("coordinates not labelled: %s", t.c_str());
  auto v = numbers(c, t); if (v.size() != 2 || v[0].size() != 32 || v[1].size() != 32) c.fail("printed: %s", t.c_str());
  typedef ref::Fe<ref::F25> fe; if (fe::bytes(v[0].data()) != fe::bytes(x.data())) c.fail("X printed as another residue: %s", t.c_str()); if (fe::bytes(v[1].data()) != fe::bytes(y.data())) c.fail("Y printed as another residue: %s", t.c_str());
}
// ---------------------------------------------------------------- sizes, constants, copies
SUB(constants, 200000, 6000000, "every case") {
  c.eqi("X25519 key size", X25519.key_size, 32); c.eqi("X25519_x64 key size", X25519_x64.key_size, 32); c.eqi("X448 key size", X448.key_size, 56);
  for (auto &S : SCH) { c.eqi("signature key size", S.ps ? S.ps->key_size : S.cs->key_size, (long long)S.ks()); c.eqi("signature size", S.ps ? S.ps->signature_size : S.cs->signature_size, (long long)S.ss()); }
  int field = (int)s.below(2); const PrimeField &F = field ? Fp448 : Fp25519; size_t fb = field ? 56 : 32; int n = (int)fb / 8; const uint64_t *P = field ? ref::F448::P : ref::F25::P; uint8_t junk = (uint8_t)s.below(256); c.nontrivial(true); c.note("%s over 0x%02x", field ? "Fp448" : "Fp25519", junk);
  { Buf<56> b(0, junk); alignas(32) uint64_t w[7 + 4]; memset(w, junk, sizeof w); F._1w_full.arith.prime(w); c.eq("prime in full radix", w, P, fb); for (size_t i = fb; i < sizeof w; i++) if (((uint8_t *)w)[i] != junk) c.fail("prime wrote past its element");
    memset(w, junk, sizeof w); F._1w_full.arith.misc.zero(w); for (size_t i = 0; i < sizeof w; i++) if (((uint8_t *)w)[i] != (i < fb ? 0 : junk)) c.fail("zero in full radix: byte %zu", i);
    alignas(32) uint64_t x[7], y[7 + 4]; if (field) gen::int448(s, x); else gen::int256(s, x); memset(y, junk, sizeof y); F._1w_full.arith.misc.copy(y, x); c.eq("copied element", y, x, fb); for (size_t i = fb; i < sizeof y; i++) if (((uint8_t *)y)[i] != junk) c.fail("copy wrote past its element"); }
  { // the prime's limbs: their weighted sum is p
    size_t E = impls(field, 1)->bytes; Elt e(E); memset(e.p(), junk, E); F._1w_red.arith.prime((uint64_t *)e.p()); uint64_t *l = (uint64_t *)e.p(); uint64_t sum[8] = {0};
    // word order of the one-way element: learnt from single-bit encodings
    int words_ = (int)E / 8; for (int bit = 0; bit < (field ? 448 : 255); bit++) { Elt o(E); memset(o.p(), 0, E); uint8_t b[56] = {0}; b[bit / 8] = (uint8_t)(1 << (bit % 8)); F._1w_red.arith.misc.unser((uint64_t *)o.p(), b); uint64_t *q = (uint64_t *)o.p(); int hit = -1; for (int i = 0; i < words_; i++) if (q[i]) { if (hit >= 0) c.fail("2^%d is spread over two limbs", bit); hit = i; } if (hit < 0) c.fail("2^%d has no limb", bit);
      if (q[hit] == 1) { uint64_t t[8] = {0}; t[bit / 64] = l[hit] << (bit % 64); if (bit % 64) t[bit / 64 + 1] = l[hit] >> (64 - bit % 64); ref::big_add(sum, sum, t, 8); } }
    uint64_t p8[8] = {0}; memcpy(p8, P, fb); c.eq("weighted sum of the prime's limbs", sum, p8, 64); c.check(e.intact(), "prime wrote outside its element"); uint8_t z[56]; F._1w_red.arith.misc.ser(z, (uint64_t *)e.p()); for (size_t i = 0; i < fb; i++) if (z[i]) c.fail("the prime does not serialise to zero");
  }
  for (int lanes = 1; lanes <= 4; lanes *= 2) { const Impl &I = *impls(field, lanes); Elt e(I.bytes), d(I.bytes); memset(e.p(), junk, I.bytes); I.zero(e.p()); size_t used = !field && lanes == 1 ? 80 : I.bytes; for (size_t i = 0; i < used; i++) if (((uint8_t *)e.p())[i]) c.fail("%s zero: byte %zu is not zero", I.name, i); c.check(e.intact(), "zero wrote outside its element");
    Bytes x = element(s, I, field, s.flip()); memcpy(e.p(), x.data(), I.bytes); memset(d.p(), junk, I.bytes); I.copy(d.p(), e.p()); if (memcmp(d.p(), x.data(), used) || memcmp(e.p(), x.data(), I.bytes)) c.fail("%s copy is not exact", I.name); c.check(d.intact() && e.intact(), "copy wrote outside its element"); }
  (void)n;
}
// ---------------------------------------------------------------- random elements
// the bytes behind a random element come from the generator (structured, boundary or random) when the library asks its random source by name
static Src *source; static bool structured_bytes;
extern "C" void __real_prgn_random_bytes(uint8_t *, size_t);
extern "C" void __wrap_prgn_random_bytes(uint8_t *b, size_t n) {
  if (!source) { __real_prgn_random_bytes(b, n); return; }
  if (!structured_bytes) { source->bytes(b, n); return; }
  for (size_t i = 0; i < n;) { uint64_t w[7]; size_t k = n - i; if (n % 56 == 0) { gen::int448(*source, w); k = 56; } else if (n % 32 == 0) { gen::int256(*source, w); k = 32; } else gen::structured(*source, (uint8_t *)w, k = k < 56 ? k : 56); memcpy(b + i, w, k); i += k; }
}
struct Feed { Feed(Src &s) { structured_bytes = s.flip(); source = &s; } ~Feed() { source = nullptr; } };
template <class FD> static void random_elements(Src &s, Ctx &c, int field) {
  typedef ref::Fe<FD> fe; const size_t fb = FD::BYTES; const PrimeField &F = field ? Fp448 : Fp25519; unsigned w = (unsigned)s.below(4); c.nontrivial(true); Feed feed(s); bool distinct = !structured_bytes; c.label(std::string(field ? "Fp448 " : "Fp25519 ") + (w == 0 ? "full radix" : w == 1 ? "1-way" : w == 2 ? "2-way" : "4-way")); c.label(distinct ? "random bytes" : "boundary bytes");
  if (w == 0) { alignas(32) uint64_t a[7 + 4], r[7], z[7]; memset(a, 0xa5, sizeof a); F._1w_full.arith.misc.rand(a); for (size_t i = fb; i < sizeof a; i++) if (((uint8_t *)a)[i] != 0xa5) c.fail("random element longer than an element"); fe x = fe::words(a, FD::N); F._1w_full.arith.mul(r, a, a); F._1w_full.arith.misc.ser((uint8_t *)z, r); c.eq("square of a random element", z, (x * x).v, fb);
    alignas(32) uint64_t b[7]; F._1w_full.arith.misc.rand(b); if (distinct && fe::words(b, FD::N) == x) c.fail("two random elements are equal"); return; }
  int lanes = 1 << (w - 1); const Impl &I = *impls(field, lanes); Elt a(I.bytes), b(I.bytes), r(I.bytes), t(I.bytes);
  auto rnd = [&](void *p) { if (lanes == 1) F._1w_red.arith.misc.rand((uint64_t *)p); else if (lanes == 2) F._2w_red.arith.misc.rand((__m256i *)p); else F._4w_red.arith.misc.rand((__m256i *)p); };
  memset(a.p(), 0xa5, I.bytes); rnd(a.p()); rnd(b.p()); c.check(a.intact() && b.intact(), "random wrote outside its element"); uint8_t x[224], y[224], z[224]; I.ser(x, a.p()); I.ser(y, b.p());
  for (int l = 0; l < lanes; l++) { uint64_t q[7]; memcpy(q, x + l * fb, fb); if (ref::big_cmp(q, FD::P, FD::N) >= 0) c.fail("random element serialises to a value not below p"); if (distinct && !memcmp(x + l * fb, y + l * fb, fb)) c.fail("two random elements are equal in lane %d", l); for (int k = 0; k < l; k++) if (distinct && !memcmp(x + l * fb, x + k * fb, fb)) c.fail("lanes %d and %d of a random element are equal", k, l); }
  // valid: as good an operand as the same residue parsed, in a difference fed to a product
  I.sub(t.p(), a.p(), b.p()); I.mul(r.p(), t.p(), b.p()); I.ser(z, r.p()); for (int l = 0; l < lanes; l++) { fe u = fe::bytes(x + l * fb), v = fe::bytes(y + l * fb); c.eq("(a - b) * b of random elements", z + l * fb, ((u - v) * v).v, fb); }
  I.add(t.p(), a.p(), b.p()); I.mul(r.p(), t.p(), a.p()); I.ser(z, r.p()); for (int l = 0; l < lanes; l++) { fe u = fe::bytes(x + l * fb), v = fe::bytes(y + l * fb); c.eq("(a + b) * a of random elements", z + l * fb, ((u + v) * u).v, fb); }
}
SUB(random_elements, 200000, 6000000, "every case") { if (s.flip()) random_elements<ref::F448>(s, c, 1); else random_elements<ref::F25>(s, c, 0); }
// ---------------------------------------------------------------- heap kept by calls
#ifndef ASAN
SUB(no_leak, 300000, 8000000, "every call") {
  auto run = [&](const Call &k) {
    static std::vector<uint8_t> room(1 << 20); uint8_t *q = (uint8_t *)(((uintptr_t)room.data() + 255) & ~(uintptr_t)255), *p[8];
    for (size_t i = 0; i < k.a.size(); i++) { p[i] = q; if (k.a[i].role != OUT && k.a[i].n) memcpy(q, k.a[i].init.data(), k.a[i].n); q += (k.a[i].n + 512) & ~(size_t)255; if (q > room.data() + room.size()) s.discard(); }
    k.f(p); size_t before = in_use(); for (size_t i = 0; i < k.a.size(); i++) if (k.a[i].role == IO && k.a[i].n) memcpy(p[i], k.a[i].init.data(), k.a[i].n); k.f(p); size_t after = in_use();
    c.note("call %s", k.name.c_str()); c.label(k.name); c.nontrivial(true); if (after > before) c.fail("%s left %zu bytes of heap allocated", k.name.c_str(), after - before);
  };
  switch (s.below(6)) { case 0: call_agreement(s, run); break; case 1: call_signatures(s, run); break; case 2: call_hashes(s, run); break; case 3: call_curve(s, run); break; case 4: call_reduced(s, run); break; default: call_full(s, run); }
}
#endif
// the erasing fill of the library, where it is exported
extern "C" volatile void *spc_memset(volatile void *, int, size_t) __attribute__((weak));
SUB(erase, 200000, 8000000, "at least one byte filled") {
  if (!spc_memset) s.discard(); uint8_t b[400], r[400]; size_t n = s.below(s.flip() ? 300 : 40), o = 16 + s.below(64); int v = (int)s.below(256); if (s.chance(20)) v -= 256; s.bulk(b, sizeof b); memcpy(r, b, sizeof b); c.note("%zu bytes at offset %zu with %d", n, o, v); c.nontrivial(n > 0);
  memset(r + o, v, n); volatile void *q = spc_memset(b + o, v, n); c.eq("buffer after the fill", b, r, sizeof b); c.check(q == b + o, "the destination is not returned");
}
