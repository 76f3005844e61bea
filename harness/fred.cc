// Reduced-radix field arithmetic: stateful sequences against integers (Fp25519, or Fp448 with -DFLD448)
#include "fmachine.h"
static void sequence(Src &s, Ctx &c, int lanes, unsigned maxn) {
  Machine m(*impls(FIELD, lanes), s, c); for (int i = 0; i < R; i++) m.load(i);
  unsigned n = 1 + (unsigned)s.below(maxn); c.nontrivial(n >= 4);
  for (unsigned i = 0; i < n; i++) m.step();
  for (int i = 0; i < R; i++) m.verify(i);
}
SUB(seq1, 3000000, 400000000, "at least 4 operations") { sequence(s, c, 1, 30); }
SUB(seq2, 3000000, 400000000, "at least 4 operations") { sequence(s, c, 2, 30); }
SUB(seq4, 3000000, 400000000, "at least 4 operations") { sequence(s, c, 4, 30); }
