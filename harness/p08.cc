#define ED true
#include "p06.cc"
