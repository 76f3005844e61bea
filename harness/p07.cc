#define ED true
#include "p05.cc"
