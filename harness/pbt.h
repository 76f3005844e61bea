// Property-based testing engine: choice-sequence generation, forked workers,
// crash/hang capture, shrinking by choice reduction, replay files, statistics.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

uint64_t splitmix(uint64_t &s);
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- choices
struct Rec { uint64_t n; uint64_t v[1]; };     // choice record (may live in shared memory)

class Src {
 public:
  // generation mode
  Src(uint64_t seed, uint64_t index, Rec *rec, uint64_t cap);
  // replay mode
  Src(const std::vector<uint64_t> &choices, Rec *rec, uint64_t cap);

  uint64_t u64() { return draw(0); }                 // full 64-bit choice
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : draw(n); }   // [0,n)
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned pct) { return below(100) >= 100 - pct; } // shrinks to false
  bool flip() { return below(2) == 1; }
  // systematic enumeration: digit of the case index (mixed radix)
  uint64_t enumerate(uint64_t n);
  void bytes(uint8_t *p, size_t n);                  // one choice per 8 bytes
  void bulk(uint8_t *p, size_t n);                   // one choice, expanded by PRNG (0 = zeros)
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  void discard() { throw Discard(); }
  uint64_t hash() const { return h; }
  bool overflowed() const { return over; }
  const Rec *record() const { return rec; }           // the choices made so far
 private:
  uint64_t draw(uint64_t n);
  void push(uint64_t v);
  bool replay; const std::vector<uint64_t> *ch; size_t pos = 0;
  uint64_t st[4]; uint64_t idx_rem; uint64_t h = 0x9e3779b97f4a7c15ull;
  Rec *rec; uint64_t cap; bool over = false;
};

// ---------------------------------------------------------------- context
class Ctx {
 public:
  bool verbose = false;
  bool nontriv = false;
  bool thorough = false;
  std::map<std::string, uint64_t> *labels = nullptr;
  std::vector<std::string> notes;
  std::vector<std::string> case_labels;

  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void label(const char *s) { case_labels.push_back(s); }
  void label(const std::string &s) { case_labels.push_back(s); }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void hex(const char *name, const void *p, size_t n);
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void check(bool ok, const char *what) { if (!ok) fail("%s", what); }
  void eq(const char *what, const void *got, const void *exp, size_t n);
  void eqi(const char *what, long long got, long long exp);
};

std::string tohex(const void *p, size_t n);

struct Sub {
  const char *name;
  uint64_t quick, thorough;
  const char *rule;
  void (*fn)(Src &, Ctx &);
  unsigned timeout;      // seconds per case
  unsigned repeat;       // confirmation attempts (any failing attempt confirms) for schedule-dependent subs; 0 = must fail 3/3
  unsigned max_workers;  // 0 = default
};
struct Registrar { Registrar(const Sub &s); };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// SUB(name, quick cases, thorough cases, non-triviality rule) { body using s and c }
#define SUBX(id, q, t, rule, timeout, repeat, maxw)                            \
  static void PBT_CAT(sub_, id)(pbt::Src &s, pbt::Ctx &c);                     \
  static pbt::Registrar PBT_CAT(reg_, id)(                                     \
      pbt::Sub{#id, q, t, rule, PBT_CAT(sub_, id), timeout, repeat, maxw});    \
  static void PBT_CAT(sub_, id)([[maybe_unused]] pbt::Src & s, [[maybe_unused]] pbt::Ctx & c)
#define SUB(id, q, t, rule) SUBX(id, q, t, rule, 60, 0, 0)

// optional per-process initialisation hook, run once in every child
extern void (*process_init)();
int main_impl(int argc, char **argv);
}  // namespace pbt
