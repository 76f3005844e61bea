#pragma once
#include "pbt.h"
// one executed call, as seen by the caller: name, result, the bytes or residues of every argument
struct Seen { char name[64]; long long ret; size_t n; struct { size_t n; uint8_t role; const uint8_t *p; } a[8]; };
typedef int (*CaseFn)(pbt::Src &, unsigned family, unsigned junk, Seen *);      // 1: nothing to run for these choices
