// The same calls in differently built copies of the library: this program's own copy against every plugin named in PBT_PLUGINS.
#include "p24.h"
#include <dlfcn.h>
extern "C" int case_fn(pbt::Src &, unsigned, unsigned, Seen *);
using namespace pbt;
struct Plugin { std::string name; CaseFn f; };
static const std::vector<Plugin> &plugins() {
  static const std::vector<Plugin> v = [] { std::vector<Plugin> r; const char *e = getenv("PBT_PLUGINS"); std::string t = e ? e : ""; size_t i = 0;
    while (i < t.size()) { size_t j = t.find(',', i); if (j == std::string::npos) j = t.size(); std::string x = t.substr(i, j - i); size_t q = x.find('='); void *h = dlopen(x.c_str() + q + 1, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); abort(); } CaseFn f = (CaseFn)dlsym(h, "case_fn"); if (!f || f == case_fn) { fprintf(stderr, "no entry in %s\n", x.c_str()); abort(); } r.push_back({x.substr(0, q), f}); i = j + 1; }
    if (r.empty()) { fprintf(stderr, "no plugins\n"); abort(); } return r; }();
  return v;
}
static void compare(Src &s, Ctx &c, unsigned family) {
  uint64_t before = s.record()->n; unsigned junk = (unsigned)s.below(256); uint64_t start = s.record()->n; (void)before; static Seen a, b; 
  if (case_fn(s, family, junk, &a) || s.overflowed()) s.discard();
  std::vector<uint64_t> ch(s.record()->v + start, s.record()->v + s.record()->n);
  c.note("%s", a.name); c.label(a.name); c.nontrivial(true); for (size_t i = 0; i < a.n; i++) if (a.a[i].role != 1) { char t[48]; snprintf(t, sizeof t, "argument %zu (%zu bytes)", i, a.a[i].n); c.hex(t, a.a[i].p, a.a[i].n > 256 ? 256 : a.a[i].n); }
  const std::vector<Plugin> &P = plugins();
  for (auto &p : P) {
    Src r(ch, nullptr, 0); if (p.f(r, family, junk ^ 0xff, &b)) c.fail("%s: configuration %s generated no call", a.name, p.name.c_str());
    if (strcmp(a.name, b.name)) c.fail("configuration %s generated %s instead of %s", p.name.c_str(), b.name, a.name);
    if (a.ret != b.ret) c.fail("%s returns %lld, in configuration %s %lld", a.name, a.ret, p.name.c_str(), b.ret);
    for (size_t i = 0; i < a.n; i++) if (a.a[i].n != b.a[i].n || memcmp(a.a[i].p, b.a[i].p, a.a[i].n)) c.fail("%s: argument %zu differs in configuration %s\n  this program  %s\n  configuration %s", a.name, i, p.name.c_str(), tohex(a.a[i].p, a.a[i].n).c_str(), tohex(b.a[i].p, b.a[i].n).c_str());
  }
}
SUB(agreement, 30000, 400000, "every call") { compare(s, c, 0); }
SUB(signatures, 24000, 300000, "every call") { compare(s, c, 1); }
SUB(hashes, 100000, 1000000, "every call") { compare(s, c, 2); }
SUB(curve, 40000, 300000, "every call") { compare(s, c, 3); }
SUB(reduced, 150000, 2000000, "every call") { compare(s, c, 4); }
SUB(full, 800000, 8000000, "every call") { compare(s, c, 5); }
